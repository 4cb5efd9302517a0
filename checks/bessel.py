"""S06: the Bessel pole table against the reverse Bessel polynomials, by exact
(integer, fixed-point) arithmetic on the constants in the intermediate code"""
import functools
from fractions import Fraction
from math import factorial, isqrt

from engine.check import Job
from engine.ir import STUBS

W = 1700  # fractional bits
ONE = 1 << W


def iroot(x, n):
    """floor of the n-th root"""
    lo, hi = 0, 1 << (x.bit_length() // n + 1)
    while lo < hi:
        m = (lo + hi + 1) >> 1
        if m ** n <= x:
            lo = m
        else:
            hi = m - 1
    return lo


def fx(q):
    return (q.numerator << W) // q.denominator


def cmul(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) >> W, (a[0] * b[1] + a[1] * b[0]) >> W)


def cabs(a):
    return isqrt(a[0] * a[0] + a[1] * a[1])


@functools.lru_cache(None)
def theta(n):
    """coefficients of the reverse Bessel polynomial and the n-th root of theta_n(0)"""
    co = [factorial(2 * n - k) // ((1 << (n - k)) * factorial(k) * factorial(n - k)) for k in range(n + 1)]
    lam = iroot(co[0] << (n * 400), n)  # 400 fractional bits
    return co, lam << (W - 400)


def newton(n, p):
    """|f/f'| at p for f(s) = theta_n(lambda s), lambda^n = theta_n(0): to
    first order the distance to the nearest root; a root is certainly within n
    times that"""
    co, lam = theta(n)
    s = (p[0] * lam >> W, p[1] * lam >> W)
    f, d = (0, 0), (0, 0)
    for k in range(n, -1, -1):
        d = cmul(d, s)
        d = (d[0] + f[0], d[1] + f[1])
        f = cmul(f, s)
        f = (f[0] + (co[k] << W), f[1])
    den = cabs(d) * lam >> W
    if den == 0:
        return None
    return Fraction(cabs(f), den)


def judge(n, poles, tol):
    """list of complaints"""
    bad = []
    for i, (re, im) in enumerate(poles):
        if re >= 0:
            bad.append("pole %d is not in the left half plane: %r" % (i, float(re)))
    rest = list(poles)
    while rest:
        re, im = rest.pop()
        if im == 0:
            continue
        if (re, -im) in rest:
            rest.remove((re, -im))
        else:
            bad.append("pole %r%+rj has no conjugate" % (float(re), float(im)))
    rad = []
    for i, (re, im) in enumerate(poles):
        e = newton(n, (fx(re), fx(im)))
        if e is None or e > tol:
            bad.append("pole %d (%r%+rj) is not a root of the reverse Bessel polynomial of order %d (off by about %s)" % (
                i, float(re), float(im), n, "?" if e is None else "%.2g" % float(e)))
            rad.append(tol * n)
        else:
            rad.append(e * n + Fraction(1, 1 << 300))
    # disjoint discs with a root each: all roots, each once
    for i in range(n):
        for j in range(i):
            dx, dy = poles[i][0] - poles[j][0], poles[i][1] - poles[j][1]
            if dx * dx + dy * dy <= (rad[i] + rad[j]) ** 2:
                bad.append("poles %d and %d are the same root" % (j, i))
    return bad


TOL = {"double": Fraction(3, 10 ** 15), "long double": Fraction(3, 10 ** 15), "float": Fraction(2, 10 ** 7)}


def post(it, mod, name, r):
    typ = r["type"]
    n = int(name.split("_")[-1])
    for st in it.final:
        try:
            poles = [(st.outs[("re", i)].q, st.outs[("im", i)].q) for i in range(n)]
        except (KeyError, AttributeError):
            poles = [None]
        if any(p is None or None in p for p in poles):
            it.undec.append(type("U", (), dict(ident="S06:table", where="bessel_poles.h", text="a pole is not a constant"))())
            continue
        bad = judge(n, poles, TOL[typ])
        it.ok("S06:conjugate", n)
        it.ok("S06:left half plane", n)
        it.ok("S06:distinct", n * (n - 1) // 2 or 1)
        if bad:
            it.viol.append(type("V", (), dict(ident="S06:table", where="include/embedded/signal/detail/bessel_poles.h (order %d, %s)" % (n, typ), text="; ".join(bad[:4]), witness=None))())
        else:
            it.ok("S06:root", n)


def post_double(it, mod, name, r):
    post(it, mod, name, dict(type="double"))


def post_float(it, mod, name, r):
    post(it, mod, name, dict(type="float"))


def post_long(it, mod, name, r):
    post(it, mod, name, dict(type="long double"))


def s06(c):
    js = [Job("bessel.cpp", ("-std=c++11",), "b_.*", "c++11 double", ("S06:",), split=6, post=("checks.bessel", "post_double")),
          Job("bessel.cpp", ("-std=c++17", "-I" + STUBS, "-DTYPE=float"), "b_.*", "c++17, gcem float", ("S06:",), split=6, gcc_branch=False, post=("checks.bessel", "post_float")),
          Job("bessel.cpp", ("-std=c++20", "-DTYPE=long double"), "b_.*", "c++20 long double", ("S06:",), split=6, post=("checks.bessel", "post_long"))]
    c.run_jobs(js)
    c.minimum = {"S06:root": 3 * 5050, "S06:number of poles": 300}
    c.explanation = "poles() of every order evaluated to constants; each within the tolerance of a distinct root of the scaled reverse Bessel polynomial by an exact Newton step (fixed point, 1700 bits); disjoint root discs, conjugate pairs, left half plane."
    c.assumptions = ["orders 1..100 (all there are)"]


CHECKS = {"S06": s06}
