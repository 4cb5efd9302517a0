"""Linear integer expressions and convex polyhedra over them.

A polyhedron is a frozenset-like tuple of `Lin` objects, each meaning e >= 0.
Emptiness is decided by Fourier-Motzkin elimination with integer tightening
(sound: "empty" is always right; "non-empty" can be a rational relaxation)."""
from math import gcd


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for x, k in self.t:
            if x == s:
                return k
        return 0

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    def divisible(self, k):
        return self.c % k == 0 and all(v % k == 0 for _, v in self.t)

    def exact_div(self, k):
        return Lin(self.c // k, tuple((s, v // k) for s, v in self.t))

    def subst(self, s, e):
        k = self.coef(s)
        if not k:
            return self
        return Lin(self.c, tuple(x for x in self.t if x[0] != s)) + e.scale(k)

    def eval(self, env):
        return self.c + sum(k * env[s] for s, k in self.t)

    def __repr__(self):
        p = []
        for s, k in self.t:
            p.append(("+" if k > 0 else "-") + ("" if abs(k) == 1 else str(abs(k)) + "*") + str(s))
        if self.c or not p:
            p.append(("+" if self.c >= 0 else "-") + str(abs(self.c)))
        r = "".join(p)
        return r[1:] if r[0] == "+" else r


def sym(s):
    return Lin(0, ((s, 1),))


def const(c):
    return Lin(c)


def tighten(e):
    """normalise e >= 0 over the integers"""
    if not e.t:
        return e
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
    if g > 1:
        return Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
    return e


_memo = {}
LIMIT = 6000


def infeasible(cons):
    """cons: iterable of Lin (>= 0).  True only if there is no integer point."""
    key = frozenset(cons)
    r = _memo.get(key)
    if r is None:
        r = _infeasible(key)
        if len(_memo) > 400000:
            _memo.clear()
        _memo[key] = r
    return r


def _prune(cs):
    """keep the strongest constraint for each direction; None if contradictory"""
    best = {}
    for e in cs:
        if not e.t:
            if e.c < 0:
                return None
            continue
        b = best.get(e.t)
        if b is None or e.c < b:
            best[e.t] = e.c
    for t, c in best.items():
        nt = tuple((s, -k) for s, k in t)
        o = best.get(nt)
        if o is not None and c + o < 0:
            return None
    return best


def _infeasible(cons):
    cs = [tighten(e) for e in cons]
    for _ in range(200):
        best = _prune(cs)
        if best is None:
            return True
        if not best:
            return False
        # equalities: e >= 0 and -e >= 0
        eq = None
        for t, c in best.items():
            nt = tuple((s, -k) for s, k in t)
            if best.get(nt) == -c:
                for s, k in t:
                    if abs(k) == 1:
                        eq = (t, c, s, k)
                        break
                if eq:
                    break
        if eq:
            t, c, s, k = eq
            # k*s + rest + c = 0  ->  s = -(rest + c)/k
            rest = Lin(c, tuple(x for x in t if x[0] != s))
            repl = rest.scale(-k)
            cs = [tighten(Lin(c2, t2).subst(s, repl)) for t2, c2 in best.items()]
            continue
        # choose a variable
        pos = {}
        neg = {}
        for t, c in best.items():
            for s, k in t:
                (pos if k > 0 else neg).setdefault(s, []).append((t, c, k))
        var = None
        cost = None
        for s in set(pos) | set(neg):
            n = len(pos.get(s, ())) * len(neg.get(s, ()))
            n -= len(pos.get(s, ())) + len(neg.get(s, ()))
            if cost is None or n < cost or (n == cost and str(s) < str(var)):
                cost, var = n, s
        out = [Lin(c, t) for t, c in best.items() if all(x[0] != var for x in t)]
        for tp, cp, kp in pos.get(var, ()):
            for tn, cn, kn in neg.get(var, ()):
                g = gcd(kp, -kn)
                e = Lin(cp, tp).scale(-kn // g) + Lin(cn, tn).scale(kp // g)
                out.append(tighten(e))
        if len(out) > LIMIT:
            return False
        cs = out
    return False


def _component(cons, syms):
    """the constraints connected to the given symbols"""
    syms = set(syms)
    rest = list(cons)
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for e in rest:
            if any(s in syms for s, _ in e.t):
                out.append(e)
                for s, _ in e.t:
                    if s not in syms:
                        syms.add(s)
                        changed = True
            else:
                nr.append(e)
        rest = nr
    return out


def entails(cons, e):
    """cons (a feasible set) implies e >= 0"""
    if not e.t:
        return e.c >= 0
    e = tighten(e)
    for x in cons:
        if x.t == e.t and x.c <= e.c:
            return True
    return infeasible(_component(cons, e.syms()) + [tighten(-e - 1)])


def entails_eq(cons, e):
    if not e.t:
        return e.c == 0
    return entails(cons, e) and entails(cons, -e)


def consistent(cons, new):
    """is cons + new non-empty, given that cons is"""
    syms = set()
    for e in new:
        if not e.t:
            if e.c < 0:
                return False
        syms.update(e.syms())
    if not syms:
        return True
    return not infeasible(_component(cons, syms) + list(new))


def sample(cons, prefer=None, budget=4000):
    """an integer point of the polyhedron, or None"""
    cons = [tighten(e) for e in cons]
    syms = sorted({s for e in cons for s, _ in e.t}, key=str)
    count = [0]

    def bounds(cs, s):
        """rational projection bounds of s by elimination of the others"""
        cs = list(cs)
        others = {x for e in cs for x, _ in e.t} - {s}
        while others:
            best = _prune(cs)
            if best is None:
                return None
            pos, neg = {}, {}
            for t, c in best.items():
                for x, k in t:
                    (pos if k > 0 else neg).setdefault(x, []).append((t, c, k))
            present = [x for x in others if x in pos or x in neg]
            if not present:
                cs = [Lin(c, t) for t, c in best.items()]
                break
            var = min(present, key=lambda x: (len(pos.get(x, ())) * len(neg.get(x, ())), str(x)))
            out = [Lin(c, t) for t, c in best.items() if all(x[0] != var for x in t)]
            for tp, cp, kp in pos.get(var, ()):
                for tn, cn, kn in neg.get(var, ()):
                    g = gcd(kp, -kn)
                    out.append(tighten(Lin(cp, tp).scale(-kn // g) + Lin(cn, tn).scale(kp // g)))
            if len(out) > LIMIT:
                return (None, None)
            cs = out
            others.discard(var)
        lo = hi = None
        for e in cs:
            if not e.t:
                if e.c < 0:
                    return None
                continue
            k = e.t[0][1]
            if k > 0:
                v = -(e.c // k)
                lo = v if lo is None else max(lo, v)
            else:
                v = e.c // (-k)
                hi = v if hi is None else min(hi, v)
        if lo is not None and hi is not None and lo > hi:
            return None
        return (lo, hi)

    def rec(cs, i, env):
        count[0] += 1
        if count[0] > budget:
            return None
        best = _prune(cs)
        if best is None:
            return None
        cs = [Lin(c, t) for t, c in best.items()]
        if i == len(syms):
            return env
        s = syms[i]
        b = bounds(cs, s)
        if b is None:
            return None
        lo, hi = b
        cand = []
        if lo is not None:
            cand += [lo + d for d in range(0, 6)]
        if hi is not None:
            cand += [hi - d for d in range(0, 3)]
        if lo is None and hi is None:
            cand += [0, 1, -1, 2]
        if lo is not None and hi is not None:
            cand = [x for x in cand if lo <= x <= hi] + [(lo + hi) // 2]
        seen = set()
        for v in cand:
            if v in seen:
                continue
            seen.add(v)
            e2 = dict(env)
            e2[s] = v
            r = rec([x.subst(s, Lin(v)) for x in cs], i + 1, e2)
            if r is not None:
                return r
        return None

    return rec(cons, 0, {})
