"""Real-valued expression DAG.  Every node carries its value at K random
points of a prime field (random interpretation, Gulwani & Necula): two nodes
denote the same rational function iff the values agree, up to a probability
below 2^-100.  Rounding is abstracted away; NaN and infinities are not
modelled."""
import functools
import hashlib
import struct
from fractions import Fraction

# P - 1 is divisible by 4n for n <= 24 and by 4*48, so that GF(P) has the
# roots of unity that give sin and cos of rational multiples of pi their values
P = 18462620360971987201
ORDER = 1285014931200
K = 2


def _root():
    fs = (2, 3, 5, 7, 11, 13, 17, 19, 23)
    for g in range(2, 1000):
        z = pow(g, (P - 1) // ORDER, P)
        if all(pow(z, ORDER // f, P) != 1 for f in fs):
            return z


ROOT = _root()
I_UNIT = pow(ROOT, ORDER // 4, P)
PI_VALUES = {
    Fraction(3.141592653589793),
    Fraction(struct.unpack("<f", struct.pack("<f", 3.141592653589793))[0]),
    Fraction(14488038916154245685, 1 << 62),
}


def _rnd(*key):
    out = []
    for i in range(K):
        h = hashlib.blake2b(repr((i,) + key).encode(), digest_size=16).digest()
        out.append(int.from_bytes(h, "little") % P)
    return tuple(out)


class F:
    __slots__ = ("op", "a", "fp", "_h", "q")

    def __init__(self, op, a, fp, q=None):
        self.op = op
        self.a = a
        self.fp = fp
        self.q = q  # Fraction for constants

    def __repr__(self):
        return show(self, 4)


def show(n, d=6):
    if n.op == "const":
        return str(float(n.q)) if n.q.denominator != 1 else str(n.q)
    if n.op in ("sym", "pi"):
        return str(n.a[0]) if n.a else "pi"
    if d == 0:
        return "..."
    if n.op == "call":
        return "%s(%s)" % (n.a[0], ",".join(show(x, d - 1) for x in n.a[1:]))
    if n.op == "neg":
        return "-" + show(n.a[0], d - 1)
    s = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[n.op]
    return "(" + show(n.a[0], d - 1) + s + show(n.a[1], d - 1) + ")"


_tab = {}


def _mk(op, a, fp, q=None):
    key = (op,) + tuple(id(x) if isinstance(x, F) else x for x in a)
    r = _tab.get(key)
    if r is None:
        r = F(op, a, fp, q)
        _tab[key] = r
    return r


@functools.lru_cache(None)
def simple(q):
    """the small fraction (0.1, 1/3) that a rounded constant stands for"""
    if q.denominator >= 1 << 20:
        bits = abs(q.numerator).bit_length()
        short = bits <= 24
        r = q.limit_denominator(100 if short else 1000)
        if r != 0 and abs(r - q) <= abs(q) / (1 << (23 if short else 52 if bits <= 53 else 62)):
            return r
    return q


def const(q):
    q = Fraction(q)
    if q in PI_VALUES:
        return _mk("pi", (), _rnd("pi"))
    q = simple(q)
    v = q.numerator * pow(q.denominator, P - 2, P) % P
    return _mk("const", (q,), (v,) * K, q)


def sym(name):
    return _mk("sym", (name,), _rnd("sym", name))


ZERO = const(0)
ONE = const(1)


def add(x, y):
    if x.q is not None and y.q is not None:
        return const(x.q + y.q)
    if x.q == 0:
        return y
    if y.q == 0:
        return x
    return _mk("add", (x, y), tuple((a + b) % P for a, b in zip(x.fp, y.fp)))


def sub(x, y):
    if x.q is not None and y.q is not None:
        return const(x.q - y.q)
    if y.q == 0:
        return x
    if x.q == 0:
        return neg(y)
    return _mk("sub", (x, y), tuple((a - b) % P for a, b in zip(x.fp, y.fp)))


def neg(x):
    if x.q is not None:
        return const(-x.q)
    if x.op == "neg":
        return x.a[0]
    return _mk("neg", (x,), tuple((-a) % P for a in x.fp))


def mul(x, y):
    if x.q is not None and y.q is not None:
        return const(x.q * y.q)
    if x.q == 0 or y.q == 0:
        return ZERO
    if x.q == 1:
        return y
    if y.q == 1:
        return x
    return _mk("mul", (x, y), tuple(a * b % P for a, b in zip(x.fp, y.fp)))


def div(x, y):
    if x.q is not None and y.q is not None and y.q != 0:
        return const(x.q / y.q)
    if y.q == 1:
        return x
    if x.q == 0 and y.q != 0:
        return ZERO
    return _mk("div", (x, y), tuple(a * pow(b, P - 2, P) % P for a, b in zip(x.fp, y.fp)))


def symbols(x):
    """names of the symbols of an expression"""
    out, seen, todo = set(), set(), [x]
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if n.op == "sym":
            out.add(n.a[0])
        todo += [y for y in n.a if isinstance(y, F)]
    return out


def subst(x, name, v):
    """x with the symbol replaced (None: it is an argument of a function)"""
    done = {}
    todo = [x]
    ops = {"add": add, "sub": sub, "mul": mul, "div": div}
    while todo:
        n = todo[-1]
        if id(n) in done:
            todo.pop()
            continue
        kids = [y for y in n.a if isinstance(y, F)]
        left = [y for y in kids if id(y) not in done]
        if left:
            todo += left
            continue
        todo.pop()
        if n.op == "sym":
            done[id(n)] = v if n.a[0] == name else n
        elif n.op in ops:
            done[id(n)] = ops[n.op](done[id(n.a[0])], done[id(n.a[1])])
        elif n.op == "neg":
            done[id(n)] = neg(done[id(n.a[0])])
        elif all(done[id(y)] is y for y in kids):
            done[id(n)] = n
        else:
            return None
    return done[id(x)]


def solve(d, name):
    """the value of the symbol that makes d zero, if d is linear in it"""
    b, a1, a2 = (subst(d, name, const(k)) for k in (0, 1, 2))
    if b is None or a1 is None or a2 is None:
        return None
    a = sub(a1, b)
    if is_zero(a) or not is_zero(sub(sub(a2, b), add(a, a))):
        return None
    return neg(div(b, a))


DEFS = {}      # (function, argument values) -> node: relations stated by a driver


def define(name, args, val):
    DEFS[(name,) + tuple(a.fp for a in args)] = val


def pimul(x):
    """q such that x = q*pi, or None"""
    if x.op == "pi":
        return Fraction(1)
    if x.q is not None:
        return Fraction(0) if x.q == 0 else None
    if x.op == "neg":
        a = pimul(x.a[0])
        return None if a is None else -a
    if x.op in ("add", "sub"):
        a, b = pimul(x.a[0]), pimul(x.a[1])
        return None if a is None or b is None else (a + b if x.op == "add" else a - b)
    if x.op == "mul":
        for u, v in (x.a, x.a[::-1]):
            if u.q is not None:
                a = pimul(v)
                return None if a is None else a * u.q
        return None
    if x.op == "div" and x.a[1].q is not None:
        a = pimul(x.a[0])
        return None if a is None else a / x.a[1].q
    return None


def trig(base, q):
    """value of sin/cos/tan(q*pi) in GF(P)"""
    n = 2 * q.denominator
    if ORDER % n:
        return None
    z = pow(ROOT, ORDER // n * q.numerator % ORDER, P)
    zi = pow(z, P - 2, P)
    h = pow(2, P - 2, P)
    c = (z + zi) * h % P
    s = (z - zi) * h % P * pow(I_UNIT, P - 2, P) % P
    if base == "cos":
        return c
    if base == "sin":
        return s
    return s * pow(c, P - 2, P) % P if c else None


def trig_sign(base, q):
    q = q % 2
    if base == "tan":
        return trig_sign("sin", q) * trig_sign("cos", q)
    if base == "cos":
        q = (q + Fraction(1, 2)) % 2
    return 0 if q in (0, 1) else 1 if q < 1 else -1


def call(name, args):
    """uninterpreted function application (congruent over equal arguments)"""
    base = name
    fps = tuple(a.fp for a in args)
    if DEFS:
        v = DEFS.get((base,) + fps)
        if v is not None:
            return v
    if base in ("sin", "cos", "tan"):
        q = pimul(args[0])
        if q is not None:
            s = trig_sign(base, q)
            if s == 0:
                return ZERO
            if q.denominator <= 2 or base == "tan" and q.denominator == 4:
                return const(s)
            v = trig(base, q)
            if v is not None:
                return _mk("call", (base,) + tuple(args), (v,) * K)
    if base == "pow" and args[1].q is not None and args[1].q.denominator == 1 and 0 <= args[1].q <= 64:
        r = ONE
        for _ in range(int(args[1].q)):
            r = mul(r, args[0])
        return r
    if base == "sqrt" and args[0].q is not None:
        from math import isqrt
        q = args[0].q
        if q >= 0:
            n, d = isqrt(q.numerator), isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return const(Fraction(n, d))
    if base in ("exp", "cosh") and args[0].q == 0:
        return ONE
    if base in ("sin", "sinh", "tan", "asinh", "atan", "tanh") and args[0].q == 0:
        return ZERO
    if base == "cos" and args[0].q == 0:
        return ONE
    if base == "hypot":
        return call("sqrt", (add(mul(args[0], args[0]), mul(args[1], args[1])),))
    if base == "pow" and args[1].q == Fraction(1, 2):
        return call("sqrt", (args[0],))
    key = ("call", base) + fps
    # congruence: one node per (function, argument values)
    r = _tab.get(key)
    if r is None:
        r = F("call", (base,) + tuple(args), _rnd("call", base, fps))
        _tab[key] = r
    return r


def square(x):
    """the square of x, where x is a root or a constant that is not negative"""
    if x.op == "call" and x.a[0] == "sqrt":
        return x.a[1]
    return const(x.q * x.q) if x.q is not None and x.q >= 0 else None


def same(x, y):
    return x is y or x.fp == y.fp


def is_zero(x):
    return all(v == 0 for v in x.fp)


def sign(x, facts):
    """subset of {-1,0,1} that the sign of x lies in; facts: fp -> set.
    Second result: whether generic position was assumed."""
    if x.q is not None:
        return {(x.q > 0) - (x.q < 0)}
    if is_zero(x):
        return {0}
    f = facts.get(x.fp)
    nf = facts.get(tuple((-a) % P for a in x.fp))
    if f is not None or nf is not None:
        f = {-1, 0, 1} if f is None else set(f)
        return f if nf is None else f & {-s for s in nf}
    if x.op == "pi":
        return {1}
    if x.op == "neg":
        return {-s for s in sign(x.a[0], facts)}
    if x.op in ("mul", "div"):
        a, b = x.a
        if same(a, b):
            s = sign(a, facts)
            return {t * t for t in s}
        if is_zero(add(a, b)):
            s = sign(a, facts)
            return {-t * t for t in s}
        sa, sb = sign(a, facts), sign(b, facts)
        return {p * q for p in sa for q in sb if x.op == "mul" or q != 0} or {-1, 0, 1}
    if x.op in ("add", "sub"):
        sa = sign(x.a[0], facts)
        sb = sign(x.a[1], facts)
        if x.op == "sub":
            sb = {-s for s in sb}
        out = set()
        for p in sa:
            for q in sb:
                if p == 0:
                    out.add(q)
                elif q == 0 or p == q:
                    out.add(p)
                else:
                    out |= {-1, 0, 1}
        return out
    if x.op == "call":
        n = x.a[0]
        if n in ("sqrt", "fabs"):
            s = sign(x.a[1], facts)
            return {abs(t) for t in s}
        if n in ("exp", "cosh"):
            return {1}
        if n == "pow":
            s = sign(x.a[1], facts)
            if s == {1}:
                return {1}
            return {-1, 0, 1}
        if n in ("sin", "cos", "tan"):
            q = pimul(x.a[1])
            if q is not None:
                return {trig_sign(n, q)}
        if n in ("sinh", "asinh", "atan", "tanh"):
            return sign(x.a[1], facts)
    return {-1, 0, 1}
