"""S07: designs as constant expressions (witnesses for g++) and the arithmetic
of the filtering step (closure of the call graph)"""
import re

from engine import effects, ir, witness
from engine.check import Job
from engine.ir import STUBS
from engine.witness import Prog

HEAD = r"""
#include <embedded/signal/filter.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/bessel.h>
using namespace embedded::signal;
using ld = long double;
// everything a design reports has to be a constant as well
template <typename D> constexpr bool poly_ok(D const& d, std::size_t n) { return d.order() == n && d.b().size() == n + 1 && d.a().size() == n + 1 && d.b()[0] == d.b()[0] && d.a()[0] == 1; }
template <typename D> constexpr bool sos_ok(D const& d, std::size_t n) { return d.order() == n && d.size() == (n + 1) / 2 && d.sos().size() == d.size() && d.sos()[0].b()[0] == d.sos()[0].b()[0] && d.sos()[d.size() - 1].a()[0] == 1; }
#define SPEC(id, c, T) constexpr auto q_##id = c.spec<T>(); constexpr auto z_##id = q_##id.zpk(); static_assert(z_##id.gain() > 0 && q_##id.gain() > 0 && z_##id.poles().size() == c.order() && q_##id.poles()[0].real() < 0, "");
#define ONE(id, T, c, n, how, f) \
constexpr auto b_##id = iirfilter<T>(T(1000)).how(c, T(f)); \
constexpr auto p_##id = b_##id.template poly<double>(); constexpr auto pf_##id = b_##id.template poly<float>(); constexpr auto pl_##id = b_##id.template poly<long double>(); \
constexpr auto s_##id = b_##id.template sos<double>(); constexpr auto sf_##id = b_##id.template sos<float>(sos_gain::distribute); constexpr auto sl_##id = b_##id.template sos<long double>(sos_gain::first_section); \
static_assert(poly_ok(p_##id, n) && poly_ok(pf_##id, n) && poly_ok(pl_##id, n) && sos_ok(s_##id, n) && sos_ok(sf_##id, n) && sos_ok(sl_##id, n), "");
"""
TMPL = {
    "butterworth": "ONE(l{n}, {T}, butterworth<{n}>(), {n}, lowpass, 100.0) ONE(h{n}, {T}, butterworth<{n}>(), {n}, highpass, 40.0) SPEC({n}, butterworth<{n}>(), {T})\n",
    "bessel": "ONE(l{n}, {T}, bessel<{n}>(), {n}, lowpass, 450.0) ONE(h{n}, {T}, bessel<{n}>(), {n}, highpass, 10.0) SPEC({n}, bessel<{n}>(), {T})\n",
    "chebyshev1": "ONE(l{n}, {T}, (chebyshev1<{n}>(0.5)), {n}, lowpass, 1.0) ONE(h{n}, {T}, (chebyshev1<{n}>(3.0)), {n}, highpass, 300.0) SPEC({n}, chebyshev1<{n}>(1.5), {T})\n",
    "chebyshev2": "ONE(l{n}, {T}, (chebyshev2<{n}>(20.0)), {n}, lowpass, 10.0) ONE(h{n}, {T}, (chebyshev2<{n}>(60.0)), {n}, highpass, 40.0) SPEC({n}, chebyshev2<{n}>(80.0), {T})\n",
}
# a double-typed filter keeps chebyshev's parameter type; narrower design types
# are built from matching parameter types
TMPLF = {
    "chebyshev1": "ONE(l{n}, {T}, (chebyshev1<{n}, {T}>({T}(0.5))), {n}, lowpass, 100.0) ONE(h{n}, {T}, (chebyshev1<{n}, {T}>({T}(3.0))), {n}, highpass, 300.0)\n",
    "chebyshev2": "ONE(l{n}, {T}, (chebyshev2<{n}, {T}>({T}(20.0))), {n}, lowpass, 10.0) ONE(h{n}, {T}, (chebyshev2<{n}, {T}>({T}(60.0))), {n}, highpass, 40.0)\n",
}


def programs(thorough):
    out = []
    groups = [range(1, 6), range(6, 9), (9, 10), (11, 12), (15, 16), (20,), (24,)]
    if thorough:
        groups += [(13, 14), (17, 18), (19, 21), (22, 23), (25, 26), (28, 30), (32,), (40,), (48,)]
    for fam in TMPL:
        for g in groups:
            code = HEAD + "".join(TMPL[fam].format(n=n, T="double") for n in g)
            out.append(Prog("S07:constant", "%s, orders %s" % (fam, ",".join(map(str, g))), code, compilers=("g++",), where="include/embedded/signal/%s.h" % fam.rstrip("12")))
        for T in ("float", "ld"):
            t = TMPLF.get(fam, TMPL[fam])
            code = HEAD + "".join(t.format(n=n, T=T) for n in range(1, 6 if not thorough else 9))
            out.append(Prog("S07:constant", "%s, %s designs" % (fam, T), code, compilers=("g++",), where="include/embedded/signal/%s.h" % fam.rstrip("12")))
    if thorough:
        for n in (60, 75, 100):
            out.append(Prog("S07:constant", "bessel order %d" % n, HEAD + "SPEC(%d, bessel<%d>(), double)\nSPEC(l%d, bessel<%d>(), long double)\n" % (n, n, n, n), compilers=("g++",)))
    return out


ARITH = {"fadd", "fsub", "fmul", "fneg"}
FPOTHER = {"fdiv", "frem", "fpext", "fptrunc", "fptoui", "fptosi", "uitofp", "sitofp", "fcmp"}
OKINTR = re.compile(r"llvm\.(fmuladd|lifetime|memcpy|memmove|memset|assume|dbg|donothing|expect|experimental\.noalias|invariant|trap|ubsantrap)")
SAMPLE = {"f": "float", "d": "double", "l": "x86_fp80", "i": None, "x": None}
USEROP = re.compile(r"^user_ops::operator(\+|-|\*)=?\(|^user_ops::([ix]sample)::(\2\(|operator=\()")


def scan(c, label, mod):
    g = effects.Graph(mod)
    T = mod.types
    roots = sorted(n for n in mod.funcs if re.match(r"run_(poly|polyd|sos|section)_._\d+$", n) and not mod.funcs[n].decl)
    if len(roots) < 90:
        c.broken.append("%s: only %d filter steps found" % (label, len(roots)))
    for r in roots:
        typ = SAMPLE[r.split("_")[2]]
        # the user's own arithmetic is the end of the library's closure
        stop = lambda n: n in mod.funcs and "user_ops::" in mod.funcs[n].dname and USEROP.match(mod.funcs[n].dname) is not None
        par = g.reach([r], stop)
        for n in par:
            f = mod.funcs.get(n)
            if f is None:
                continue
            if stop(n):
                if "operator" not in f.dname and par[n] is not None and not f.dname.endswith("const&)") and not f.dname.endswith("sample()"):
                    # conversion from a number: of a constant only
                    if par[n][1]["o"][-1][0] not in ("f", "c"):
                        c.violation("S07:arithmetic", g.where(par[n][0], par[n][1]), "filtering a sample of type %s converts a computed number of another type: %s" % (r, g.path(par, n)))
                c.ok("S07:sample operation")
                continue
            if f.decl:
                if f.intrinsic and OKINTR.match(n):
                    c.ok("S07:no library call")
                else:
                    c.violation("S07:library call", g.where(par[n][0], par[n][1]) if par[n] else r, "filtering a sample reaches %s: %s" % (f.dname, g.path(par, n)))
                continue
            c.fns.add(f.dname)
            for i in g.insts(f):
                op = i["op"]
                fp = [T[t].s for t in [i["t"]] + i.get("ot", []) if T[t].k == "f"]
                c.count("instructions_scanned")
                if op in FPOTHER or op in ARITH or (op == "call" and fp):
                    if op in FPOTHER:
                        c.violation("S07:arithmetic", g.where(n, i), "filtering a sample performs %s on %s (%s): %s" % (op, "/".join(fp), r, g.path(par, n)))
                    elif typ is None or any(x != typ for x in fp):
                        c.violation("S07:arithmetic", g.where(n, i), "filtering samples uses %s arithmetic in %s (%s)" % ("/".join(fp), r, op))
                    else:
                        c.ok("S07:sample arithmetic")
                elif op in ("atomicrmw", "cmpxchg", "fence"):
                    c.violation("S07:arithmetic", g.where(n, i), "filtering a sample performs %s" % op)
                if "callee" in i and i["callee"][0] not in ("g",):
                    c.violation("S07:library call", g.where(n, i), "filtering a sample calls through a pointer: %s" % g.path(par, n))
        c.ok("S07:closure")


def post(it, mod, name, r):
    """no loop was summarised: every one had a trip count known from the type"""
    if it.accel:
        it.viol.append(type("V", (), dict(ident="S07:loop", where=name, text="a loop of the filtering step has no constant bound", witness=None))())
    else:
        it.ok("S07:bounded")


def s07(c):
    cfg = [("c++11", ("-std=c++11",), True), ("c++20", ("-std=c++20", "-DNDEBUG"), True), ("c++17, gcem", ("-std=c++17", "-I" + STUBS, "-fno-exceptions", "-fno-rtti"), False)]
    for lab, fl, gb in cfg:
        try:
            scan(c, lab, ir.load(ir.VERIF + "/drivers/runfilter.cpp", fl, gb))
        except ir.CompileError as e:
            from engine.check import first_error
            c.violation("interface", "runfilter.cpp", "filters of this type no longer compile (%s): %s" % (lab, first_error(str(e))))
    c.run_jobs([Job("signal.cpp", fl, "poly_[dfl]_[12358]|sos_[dflx]_[1235]", lab, ("S07:",), hooks=dict(generic=True), gcc_branch=gb, split=4, post=("checks.constant", "post")) for lab, fl, gb in (cfg[0], cfg[2])])
    witness.run(c, programs(c.thorough))
    c.minimum = {"S07:constant": 100, "S07:closure": 250, "S07:sample arithmetic": 2000, "S07:sample operation": 200, "S07:bounded": 40}
    c.explanation = ("Designs declared constexpr and compared in static_asserts, compiled (not run) by g++ for every standard; the closure of the call graph of "
                     "operator() and filter() over every instruction: additions, subtractions, multiplications and negations of the sample type only.")
    c.assumptions = ["GCC's constant evaluator for the listed families, orders, forms and types; other orders use the same templates"]


CHECKS = {"S07": s07}
