"""Relational abstract interpreter over LLVM IR.

Abstract state: affine expressions over symbols constrained by a convex
polyhedron (lin), bit-level values as BDDs (bdd), pointers as region + affine
offset, real expressions (flt), and an event ledger.  States are kept as a
finite disjunction per program point (trace partitioning); identical disjuncts
are merged at join points; loops whose exit the state does not decide are
summarised by affine acceleration (a new symbol for the iteration count) that
is accepted only when the loop body maps the summary into itself.

Nothing is executed and no solver is called: the transfer functions below give
the meaning of every instruction on the abstract domain."""
import heapq
import itertools
import os
import re
import sys
from fractions import Fraction

from . import flt
from . import lin as L
from .bdd import B
from .ir import AnalysisBroken, bits_to_fraction
from .lin import Lin

FPBITS = {"half": 11, "float": 24, "double": 53, "x86_fp80": 64}

sys.setrecursionlimit(200000)


# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o=0):
        self.r = r
        self.o = o

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.r == x.r and self.o == x.o

    def __hash__(self):
        return hash((self.r, self.o))

    def __repr__(self):
        return "&%s+%s" % (rname(self.r), self.o)


def rname(r):
    if r is None:
        return "null"
    if isinstance(r, tuple):
        return ":".join(str(x) for x in r)
    return str(r)


class BV:
    """bit vector, least significant bit first, BDD nodes"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    def __eq__(self, x):
        return isinstance(x, BV) and self.b == x.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return "bits<%d>" % len(self.b)


class CondInt:
    """0/1 integer of some width, equal to a condition"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, x):
        return isinstance(x, CondInt) and self.c == x.c

    def __hash__(self):
        return hash(self.c)


class Agg:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __eq__(self, x):
        return isinstance(x, Agg) and self.e == x.e

    def __hash__(self):
        return hash(self.e)


class Pack:
    """raw bytes of a memory range: ((offset, size, value), ...), total size"""
    __slots__ = ("c", "n")

    def __init__(self, c, n):
        self.c = tuple(c)
        self.n = n

    def __eq__(self, x):
        return isinstance(x, Pack) and self.c == x.c and self.n == x.n

    def __hash__(self):
        return hash((self.c, self.n))


class Top:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __eq__(self, x):
        return isinstance(x, Top) and self.why == x.why

    def __hash__(self):
        return hash(self.why)

    def __repr__(self):
        return "?(%s)" % self.why


class Undef:
    __slots__ = ()

    def __eq__(self, x):
        return isinstance(x, Undef)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "undef"


UNDEF = Undef()
ZEROFILL = ("zero",)


class Region:
    __slots__ = ("kind", "size", "align", "cells", "fill", "owner", "name", "ro", "log", "info")

    def __init__(self, kind, size, align, name, fill=None, ro=False):
        self.kind = kind      # obj | buf
        self.size = size
        self.align = align
        self.cells = {}
        self.fill = fill      # None: uninitialised, 0: zero, 'sym': named symbols
        self.owner = None
        self.name = name
        self.ro = ro
        self.log = ()
        self.info = None

    def copy(self):
        r = Region.__new__(Region)
        r.kind, r.size, r.align = self.kind, self.size, self.align
        r.cells = dict(self.cells)
        r.fill, r.name, r.ro, r.log, r.info = self.fill, self.name, self.ro, self.log, self.info
        r.owner = None
        return r

    def same(self, o):
        return self is o or (self.kind == o.kind and self.size == o.size and self.cells == o.cells
                             and self.fill == o.fill and self.log == o.log)


class State:
    __slots__ = ("regs", "cons", "pc", "facts", "ev", "exp", "imp", "flags", "sig", "tok", "outs", "gen")

    def __init__(self):
        self.regs = {}
        self.cons = ()
        self.pc = 1
        self.facts = {}
        self.ev = ()
        self.exp = ()
        self.imp = ()
        self.flags = {}
        self.sig = ()
        self.outs = {}
        self.gen = 0
        self.tok = object()

    def clone(self):
        s = State.__new__(State)
        s.regs = dict(self.regs)
        s.cons, s.pc, s.facts, s.ev, s.exp, s.imp = self.cons, self.pc, self.facts, self.ev, self.exp, self.imp
        s.flags, s.sig, s.outs, s.gen = self.flags, self.sig, self.outs, self.gen
        self.tok = object()
        s.tok = object()
        return s

    def w(self, rid):
        r = self.regs[rid]
        if r.owner is not self.tok:
            r = r.copy()
            r.owner = self.tok
            self.regs[rid] = r
        return r

    def add(self, e):
        """assume e >= 0"""
        if not e.t:
            return
        e = L.tighten(e)
        for x in self.cons:
            if x.t == e.t and x.c <= e.c:
                return
        self.cons = tuple(x for x in self.cons if not (x.t == e.t and x.c >= e.c)) + (e,)


class Event:
    __slots__ = ("kind", "rid", "lo", "hi", "ex", "where")

    def __init__(self, kind, rid, lo, hi, ex, where=""):
        self.kind, self.rid, self.lo, self.hi, self.ex, self.where = kind, rid, lo, hi, ex, where

    def key(self):
        return (self.kind, self.rid, self.lo, self.hi, self.ex)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.rid is None and self.lo is None:
            return "%s%r" % (self.kind, self.ex)
        return "%s %s[%s..%s)%s" % (self.kind, rname(self.rid), self.lo, self.hi, "" if self.ex is None else " " + repr(self.ex))


class Outcome:
    __slots__ = ("kind", "val", "st")

    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st


class Report:
    def __init__(self, ident, where, text, witness=None):
        self.ident, self.where, self.text, self.witness = ident, where, text, witness


class Stop(Exception):
    """path ends here"""


def toL(v):
    if isinstance(v, Lin):
        return v
    return Lin(v)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


EXC_BASES = {
    "_ZTISt12out_of_range": ("_ZTISt11logic_error", "_ZTISt9exception"),
    "_ZTISt17bad_function_call": ("_ZTISt9exception",),
}

MATH = {}
for _n in ("sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp expm1 log log10 log1p log2 sqrt "
           "fabs ceil floor round trunc erf tgamma lgamma pow atan2 fmod copysign hypot exp2 cbrt").split():
    for _s in ("", "f", "l"):
        MATH[_n + _s] = _n
for _n in "sin cos exp exp2 log log10 log2 sqrt fabs ceil floor round trunc pow copysign".split():
    for _s in ("f32", "f64", "f80"):
        MATH["llvm.%s.%s" % (_n, _s)] = _n


class Interp:
    MAX_STATES = 20000
    MAX_ITEMS = 400000

    def __init__(self, mod, own=None):
        self.m = mod
        self.T = mod.types
        self.own = own or (lambda ident: True)
        self.proved = {}
        self.viol = []
        self.undec = []
        self.fns = set()
        self.ninst = 0
        self.nstates = 0
        self.accel = 0
        self.ends = {}
        self.tids = {}
        self.fpcasts = {}
        self.precision = None
        self.special, self.bind = [], []
        self.driver = ""
        self.exnum = itertools.count()
        self.fresh = itertools.count()
        self.final = []
        self.hooks = {}
        self.maxitems = 0
        self.ubchecks = True
        self.stack = []
        self.seen_viol = set()

    # ------------------------------------------------------------ reports
    def where(self, inst=None):
        # innermost frame inside /repo
        for fn, i in reversed(self.stack):
            if i is not None and i.get("fl", "").startswith(os.path.dirname(self.m_root)):
                return "%s:%d (%s)" % (self.m.rel(i["fl"]), i.get("l", 0), fn.dname.split("(")[0][-90:])
        for fn, i in reversed(self.stack):
            if i is not None and i.get("fl"):
                return "%s:%d (%s)" % (self.m.rel(i["fl"]), i.get("l", 0), fn.dname.split("(")[0][-90:])
        return "?"

    m_root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "include")

    def chain(self):
        out = []
        for fn, i in self.stack:
            if i is not None:
                out.append("%s:%d" % (self.m.rel(i.get("fl", "?")), i.get("l", 0)))
        return " > ".join(out[-8:])

    def ok(self, ident, n=1):
        self.proved[ident] = self.proved.get(ident, 0) + n

    def fail(self, ident, st, text, need_sample=True):
        """an obligation whose negation is satisfiable in st"""
        if not self.own(ident):
            return
        w = self.where()
        env = L.sample(st.cons) if need_sample else {}
        if env is None or st.imp:
            self.undec.append(Report(ident, w, text + (" [imprecise: %s]" % "; ".join(sorted(set(st.imp))) if st.imp else " [no concrete witness found]")))
            return
        wit = {str(k): v for k, v in sorted(env.items(), key=lambda x: str(x[0]))}
        if st.pc != 1:
            bits = B.pick(st.pc)
            words = {}
            for n, b in bits.items():
                base, _, i = n.rpartition(".")
                words[base] = words.get(base, 0) | (b << int(i))
            wit.update({k: hex(v) for k, v in words.items()})
        if st.facts and not wit:
            wit["real facts"] = len(st.facts)
        key = (ident, w, text)
        if key in self.seen_viol:
            return
        self.seen_viol.add(key)
        self.viol.append(Report(ident, w, "%s; driver %s; via %s" % (text, self.driver, self.chain()), wit))

    def broken(self, msg):
        raise AnalysisBroken("%s: %s [%s] %s" % (self.driver, msg, self.where(), self.chain()))

    # ------------------------------------------------------------ deciding
    def cases(self, c, truth):
        """DNF of a condition: list of lists of atoms"""
        if isinstance(c, int):
            return [[]] if bool(c) == truth else []
        k = c[0]
        if k == "not":
            return self.cases(c[1], not truth)
        if k == "lin":
            return [[("lin", c[1] if truth else -c[1] - 1)]]
        if k == "eq":
            if truth:
                return [[("lin", c[1]), ("lin", -c[1])]]
            return [[("lin", c[1] - 1)], [("lin", -c[1] - 1)]]
        if k == "bdd":
            return [[("bdd", c[1] if truth else B.NOT(c[1]))]]
        if k == "sgn":
            s = c[2] if truth else frozenset((-1, 0, 1)) - c[2]
            return [[("sgn", c[1], s)]] if s else []
        if k == "and" or k == "or":
            if (k == "and") == truth:
                return [x + y for x in self.cases(c[1], truth) for y in self.cases(c[2], truth)]
            return self.cases(c[1], truth) + [y + x for y in self.cases(c[2], truth) for x in self.cases(c[1], not truth)]
        if k == "top":
            return [[("top", c[1])]]
        self.broken("condition kind " + str(k))

    def refine(self, st, atoms):
        """st restricted by the atoms (a clone), or None if empty"""
        lins = [a[1] for a in atoms if a[0] == "lin"]
        if lins and not L.consistent(st.cons, lins):
            return None
        pc = st.pc
        for a in atoms:
            if a[0] == "bdd":
                pc = B.AND(pc, a[1])
                if pc == 0:
                    return None
        facts = st.facts
        for a in atoms:
            if a[0] == "sgn":
                s = flt.sign(a[1], facts) & a[2]
                if not s:
                    return None
                facts = dict(facts)
                facts[a[1].fp] = frozenset(s)
                # also record both orientations of a difference of squares etc.
        n = st.clone()
        n.pc = pc
        n.facts = facts
        for e in lins:
            n.add(e)
        for a in atoms:
            if a[0] == "top":
                n.imp = n.imp + (a[1],)
        return n

    def decide(self, c, st, note=True):
        """[(bool, state)]: the feasible truth values with refined states"""
        if isinstance(c, int):
            return [(bool(c), st)]
        if c[0] == "sgn":
            # generic position: x*x + ... == 0 only when identically zero
            s = flt.sign(c[1], st.facts)
            if s <= c[2]:
                return [(True, st)]
            if not (s & c[2]):
                return [(False, st)]
        out = []
        for truth in (True, False):
            for atoms in self.cases(c, truth):
                n = self.refine(st, atoms)
                if n is not None:
                    out.append((truth, n))
        if len(out) > 1 and note:
            for i, (t, n) in enumerate(out):
                n.sig = n.sig + ((c if c[0] not in ("lin", "eq") else c[0], i),)
        if len(out) == 1:
            return [(out[0][0], out[0][1] if c[0] != "top" else out[0][1])]
        return out

    def implied(self, c, st):
        return all(t for t, _ in self.decide(c, st, note=False))

    def prove(self, c, st, ident, text):
        """returns the states in which c holds; reports the others"""
        out = []
        bad = False
        for t, s in self.decide(c, st, note=False):
            if t:
                out.append(s)
            else:
                bad = True
                self.fail(ident, s, text)
                if not self.own(ident):
                    out.append(s)
        if not bad:
            self.ok(ident)
        return out

    # ------------------------------------------------------------ integers
    def in_range(self, e, lo, hi, st):
        if not e.t:
            return lo <= e.c < hi
        return L.entails(st.cons, e - lo) and L.entails(st.cons, -e + (hi - 1))

    def norm(self, e, w, signed, st):
        """[(lin in range, state)] for the mathematical value of e mod 2^w"""
        if isinstance(e, int):
            return [(Lin(sgn(e, w) if signed else e), st)]
        M = 1 << w
        lo, hi = (-(M >> 1), M >> 1) if signed else (0, M)
        if not e.t:
            v = e.c % M
            return [(Lin(sgn(v, w) if signed else v), st)]
        if self.in_range(e, lo, hi, st):
            return [(e, st)]
        out = []
        covered = []
        for k in (0, 1, -1, 2, -2):
            x = e + k * M
            s = self.refine(st, [("lin", x - lo), ("lin", -x + (hi - 1))])
            if s is not None:
                out.append((x, s))
            covered.append(k)
        # anything outside?
        rest = self.refine(st, [("lin", e - (hi + 2 * M))]) or self.refine(st, [("lin", -e + (lo - 2 * M - 1))])
        if rest is not None:
            rest.imp = rest.imp + ("integer wraps more than twice",)
            nm = L.sym("#w%d" % next(self.fresh))
            rest.add(nm - lo)
            rest.add(-nm + (hi - 1))
            out.append((nm, rest))
        return out

    def as_bv(self, v, w):
        if isinstance(v, BV):
            return v
        if isinstance(v, int):
            return BV([(v >> i) & 1 for i in range(w)])
        if isinstance(v, Lin) and not v.t:
            return self.as_bv(v.c % (1 << w), w)
        if isinstance(v, CondInt):
            c = v.c
            if isinstance(c, tuple) and c[0] == "bdd":
                return BV([c[1]] + [0] * (w - 1))
        return None

    def bvval(self, bits):
        if all(b in (0, 1) for b in bits):
            return sum(b << i for i, b in enumerate(bits))
        return BV(bits)

    def bv_binop(self, op, a, b, w, st):
        x = self.as_bv(a, w)
        y = self.as_bv(b, w)
        if x is None or y is None:
            return Top("mixed bit-level and affine operands of " + op)
        x, y = x.b, y.b
        if op == "and":
            return self.bvval([B.AND(p, q) for p, q in zip(x, y)])
        if op == "or":
            return self.bvval([B.OR(p, q) for p, q in zip(x, y)])
        if op == "xor":
            return self.bvval([B.XOR(p, q) for p, q in zip(x, y)])
        if op in ("add", "sub"):
            carry = 0
            if op == "sub":
                y = [B.NOT(q) for q in y]
                carry = 1
            out = []
            for p, q in zip(x, y):
                out.append(B.XOR(B.XOR(p, q), carry))
                carry = B.OR(B.AND(p, q), B.AND(carry, B.XOR(p, q)))
            return self.bvval(out)
        if op in ("shl", "lshr", "ashr"):
            if not isinstance(b, int):
                # symbolic amount: barrel shifter is not needed here
                return Top("shift by a symbolic amount")
            if b >= w:
                return Top("shift by the width or more")
            if op == "shl":
                return self.bvval([0] * b + list(x[: w - b]))
            f = 0 if op == "lshr" else x[-1]
            return self.bvval(list(x[b:]) + [f] * b)
        if op == "mul":
            for p, q, c in ((a, b, b), (b, a, a)):
                if isinstance(c, int):
                    acc = 0
                    src = self.as_bv(p, w).b
                    for i in range(w):
                        if (c >> i) & 1:
                            sh = self.bvval([0] * i + list(src[: w - i]))
                            acc = sh if acc == 0 else self.bv_or_int("add", acc, sh, w, st)
                    return acc
        if op in ("udiv", "urem") and isinstance(b, int) and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            if op == "udiv":
                return self.bvval(list(x[k:]) + [0] * k)
            return self.bvval(list(x[:k]) + [0] * (w - k))
        if op in ("sdiv", "srem") and x[-1] == 0 and isinstance(b, int) and not b >> (w - 1):
            return self.bv_or_int("u" + op[1:], self.bvval(x), b, w, st)
        if op == "mul" and w <= 64:
            acc = 0
            for i in range(w):
                if y[i] != 0:
                    row = self.bvval([0] * i + [B.AND(p, y[i]) for p in x[: w - i]])
                    acc = row if acc == 0 else self.bv_or_int("add", acc, row, w, st)
            return acc
        if op in ("udiv", "urem") and isinstance(b, int) and 0 < b < 1 << 16:
            # long division by a constant
            n = b.bit_length() + 1
            rem = [0] * n
            q = [0] * w
            d = [(b >> i) & 1 for i in range(n)]
            for i in reversed(range(w)):
                rem = [x[i]] + rem[:-1]
                carry = 1
                df = []
                for p, t in zip(rem, d):
                    t = B.NOT(t)
                    df.append(B.XOR(B.XOR(p, t), carry))
                    carry = B.OR(B.AND(p, t), B.AND(carry, B.XOR(p, t)))
                q[i] = carry
                rem = [B.ite(carry, u, v) for u, v in zip(df, rem)]
            return self.bvval(q if op == "udiv" else (rem + [0] * w)[:w])
        if op in ("sdiv", "srem") and isinstance(b, int) and b and b & (b - 1) == 0 and not b >> (w - 1):
            # round toward zero
            k = b.bit_length() - 1
            s = x[-1]
            bias = self.bvval([B.AND(s, 1) if i < k else 0 for i in range(w)])
            t = self.bv_or_int("add", self.bvval(x), bias, w, st)
            q = self.bv_or_int("ashr", t, k, w, st)
            if op == "sdiv":
                return q
            return self.bv_or_int("sub", self.bvval(x), self.bv_or_int("shl", q, k, w, st), w, st)
        return Top("bit-level " + op)

    def bv_or_int(self, op, a, b, w, st):
        if isinstance(a, int) and isinstance(b, int):
            return self.int_binop(op, a, b, w)
        return self.bv_binop(op, a, b, w, st)

    def int_binop(self, op, a, b, w):
        M = (1 << w) - 1
        if op == "add":
            return (a + b) & M
        if op == "sub":
            return (a - b) & M
        if op == "mul":
            return (a * b) & M
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & M if b < w else Top("shift by the width or more")
        if op == "lshr":
            return a >> b if b < w else Top("shift by the width or more")
        if op == "ashr":
            return (sgn(a, w) >> b) & M if b < w else Top("shift by the width or more")
        if b == 0:
            return Top("division by zero")
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == "sdiv":
            return q & M
        return (x - q * y) & M

    def flat_int(self, v, st):
        """turn CondInt into 0/1 by partitioning"""
        if isinstance(v, CondInt):
            return [(1 if t else 0, s) for t, s in self.decide(v.c, st)]
        return [(v, st)]

    def binop(self, op, a, b, w, st, inst):
        if isinstance(a, int) and isinstance(b, int):
            if op in ("shl", "lshr", "ashr") and b >= w:
                self.fail("ub:shift", st, "shift by %d bits of a %d-bit value" % (b, w))
            return [(self.int_binop(op, a, b, w), st)]
        if isinstance(a, Top):
            return [(a, st)]
        if isinstance(b, Top):
            return [(b, st)]
        if isinstance(a, Undef) or isinstance(b, Undef):
            return [(Top("use of an uninitialised value"), st)]
        if w == 1:
            # boolean algebra on conditions
            if op == "and":
                return [(self.c_and(a, b), st)]
            if op == "or":
                return [(self.c_not(self.c_and(self.c_not(a), self.c_not(b))), st)]
            if op == "xor":
                if isinstance(b, int):
                    return [(self.c_not(a) if b else a, st)]
                if isinstance(a, int):
                    return [(self.c_not(b) if a else b, st)]
                return [(y if not t else self.c_not(y), s) for t, s in self.decide(a, st) for y in (b,)]
        if (isinstance(a, CondInt) or isinstance(b, CondInt)) and not isinstance(a, BV) and not isinstance(b, BV):
            out = []
            for x, s in self.flat_int(a, st):
                for y, s2 in self.flat_int(b, s):
                    out += self.binop(op, x, y, w, s2, inst)
            return out
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r:
                    return [(self.lin_or_int(toL(a.o) - toL(b.o), w), st)]
                for p, q, sg in ((a, b, 1), (b, a, -1)):
                    if q.r is None and p.r is not None and p.r[0] != "fn":
                        d = self.address(p, st)
                        if d is not None:
                            return [(self.lin_or_int((d - toL(q.o)) if sg > 0 else (toL(q.o) - d), w), st)]
                return [(Top("difference of pointers into different objects"), st)]
            if op in ("add", "sub") and isinstance(a, Ptr) and not isinstance(b, Ptr):
                d = toL(b) if isinstance(b, Lin) else Lin(sgn(b, w))
                return [(Ptr(a.r, self.off(toL(a.o) + (d if op == "add" else -d))), st)]
            if op == "add" and isinstance(b, Ptr):
                return self.binop(op, b, a, w, st, inst)
            if op == "and" and isinstance(b, int) and isinstance(a, Ptr) and a.r is not None:
                # alignment test of an address
                al = 2 if a.r[0] == "fn" and a.o == 0 else self.region_align(a, st)
                if al is not None and b < al:
                    return [(0, st)]
            if op in ("sdiv", "udiv", "mul", "ashr", "lshr"):
                x = self.address(a, st) if isinstance(a, Ptr) and a.r is not None and a.r[0] != "fn" else toL(a.o) if isinstance(a, Ptr) and a.r is None else a
                y = self.address(b, st) if isinstance(b, Ptr) and b.r is not None and b.r[0] != "fn" else toL(b.o) if isinstance(b, Ptr) and b.r is None else b
                if x is not None and y is not None and not isinstance(x, Ptr) and not isinstance(y, Ptr):
                    return self.binop(op, x, y, w, st, inst)
            return [(Top("arithmetic on an address"), st)]
        if isinstance(a, BV) or isinstance(b, BV):
            if op in ("shl", "lshr", "ashr") and isinstance(b, int) and b >= w:
                self.fail("ub:shift", st, "shift by %d bits of a %d-bit value" % (b, w))
            if op in ("shl", "lshr", "ashr") and isinstance(b, BV):
                return self.split_bv(b, st, lambda v, s: self.binop(op, a, v, w, s, inst))
            if isinstance(a, Lin) and a.t:
                return self.split_bv(b, st, lambda v, s: self.binop(op, a, v, w, s, inst))
            if isinstance(b, Lin) and b.t:
                return self.split_bv(a, st, lambda v, s: self.binop(op, v, b, w, s, inst))
            return [(self.bv_binop(op, a, b, w, st), st)]
        if isinstance(a, flt.F) or isinstance(b, flt.F) or isinstance(a, Pack) or isinstance(b, Pack):
            return [(Top("integer arithmetic on a non-integer"), st)]
        # affine
        la = a if isinstance(a, Lin) else Lin(sgn(a, w))
        lb = b if isinstance(b, Lin) else Lin(sgn(b, w))
        if op == "add":
            return [(self.lin_or_int(la + lb, w), st)]
        if op == "sub":
            return [(self.lin_or_int(la - lb, w), st)]
        if op == "mul":
            if not lb.t:
                return [(self.lin_or_int(la.scale(lb.c), w), st)]
            if not la.t:
                return [(self.lin_or_int(lb.scale(la.c), w), st)]
            r = self.small_split(b, w, st, lambda v, s: self.binop(op, a, v, w, s, inst))
            return r or [(Top("product of two unknowns"), st)]
        if op == "shl" and isinstance(b, int):
            return [(self.lin_or_int(la.scale(1 << b), w), st)]
        if op in ("udiv", "sdiv", "urem", "srem", "lshr", "ashr", "and"):
            if op == "and":
                for p, q in ((a, b), (b, a)):
                    if isinstance(q, int) and (q & (q + 1)) == 0:
                        return self.divrem(toL(p), Lin(q + 1), w, False, True, st)
                    if isinstance(q, int) and ((1 << w) - q) & ((1 << w) - q - 1) == 0:
                        out = []
                        for r, s in self.divrem(toL(p), Lin((1 << w) - q), w, False, True, st):
                            out.append((self.lin_or_int(toL(p) - toL(r), w), s))
                        return out
                return [(Top("bitwise and of unknowns"), st)]
            if op in ("lshr", "ashr"):
                if not isinstance(b, int):
                    return [(Top("shift by a symbolic amount"), st)]
                return self.divrem(la, Lin(1 << b), w, op == "ashr", False, st, floor=True)
            return self.divrem(la, lb, w, op[0] == "s", op.endswith("rem"), st)
        if op == "xor" and not lb.t and lb.c == -1:
            return [(self.lin_or_int(-la - 1, w), st)]
        if op == "or" and not lb.t and lb.c == 0:
            return [(a, st)]
        return [(Top("bitwise %s of unknowns" % op), st)]

    def small_split(self, v, w, st, k, limit=40):
        """partition on the value of a small-range integer"""
        if not isinstance(v, Lin):
            return None
        for lo in (0, -limit):
            pass
        if not self.in_range(v, -limit, limit, st):
            return None
        out = []
        for x in range(-limit, limit):
            s = self.refine(st, [("lin", v - x), ("lin", -v + x)])
            if s is not None:
                s.sig = s.sig + (("val", x),)
                out += k(x % (1 << w), s)
        return out

    def split_bv(self, v, st, k, limit=256):
        """partition on the value of a bit vector with few possible values"""
        out = []
        pc = st.pc
        n = 0
        while pc != 0:
            env = B.pick(pc)
            # value under env
            val = 0
            cond = 1
            for i, b in enumerate(v.b):
                x = b
                while x > 1:
                    vv, lo, hi = B.nodes[x]
                    x = hi if env.get(B.names[vv], 0) else lo
                val |= x << i
                cond = B.AND(cond, b if x else B.NOT(b))
            s = st.clone()
            s.pc = B.AND(st.pc, cond)
            s.sig = s.sig + (("val", val),)
            out += k(val, s)
            pc = B.AND(pc, B.NOT(cond))
            n += 1
            if n > limit:
                self.broken("too many values of a bit vector")
        return out

    def lin_or_int(self, e, w):
        if not e.t:
            return e.c % (1 << w)
        return e

    def off(self, e):
        if isinstance(e, Lin) and not e.t:
            return e.c
        return e

    def divrem(self, a, b, w, signed, rem, st, floor=False):
        out = []
        for x, s in self.norm(a if a.t else a.c % (1 << w), w, signed, st):
            if not b.t:
                d = b.c
                if d == 0:
                    self.fail("ub:div", s, "division by zero")
                    continue
                if x.divisible(d):
                    r = Lin(0) if rem else x.exact_div(d)
                    out.append((self.lin_or_int(r, w), s))
                    continue
                if d < 0:
                    out.append((Top("division by a negative"), s))
                    continue
                for neg in ((False, True) if signed and not floor else (False,)):
                    s2 = self.refine(s, [("lin", x if not neg else -x - 1)]) if signed and not floor else s
                    if s2 is None:
                        continue
                    # constant quotient?
                    q = L.sym("#q%d" % next(self.fresh))
                    s3 = s2.clone()
                    if neg:  # truncation toward zero: x = d*q - r, 0 <= r < d
                        s3.add(q.scale(d) - x)
                        s3.add(x - q.scale(d) + (d - 1))
                    else:
                        s3.add(x - q.scale(d))
                        s3.add(q.scale(d) + (d - 1) - x)
                    out.append((self.lin_or_int(x - q.scale(d) if rem else q, w), s3))
                continue
            # symbolic divisor: small quotients only
            for y, s2 in self.norm(b, w, signed, s):
                z = self.refine(s2, [("lin", y), ("lin", -y)])
                if z is not None:
                    self.fail("ub:div", z, "division by zero")
                s2 = self.refine(s2, [("lin", y - 1)])
                if s2 is None:
                    continue
                neg = self.refine(s2, [("lin", -x - 1)])
                if neg is not None:
                    neg.imp += ("division of a negative by an unknown",)
                    out.append((Top("division of a negative by an unknown"), neg))
                for qv in range(0, 4):
                    s3 = self.refine(s2, [("lin", x - y.scale(qv)), ("lin", y.scale(qv + 1) - x - 1)])
                    if s3 is not None:
                        s3.sig = s3.sig + (("quot", qv),)
                        out.append((self.lin_or_int(x - y.scale(qv), w) if rem else qv, s3))
                s3 = self.refine(s2, [("lin", x - y.scale(4))])
                if s3 is not None:
                    if rem:
                        r = L.sym("#r%d" % next(self.fresh))
                        s3.add(r)
                        s3.add(y - r - 1)
                        s3.imp += ("remainder by an unknown",)
                        out.append((r, s3))
                    else:
                        q = L.sym("#q%d" % next(self.fresh))
                        s3.add(q - 4)
                        s3.add(x - q)
                        s3.imp += ("quotient by an unknown",)
                        out.append((q, s3))
        return out

    # ------------------------------------------------------------ conditions
    def c_not(self, c):
        if isinstance(c, int):
            return 1 - c
        if c[0] == "not":
            return c[1]
        if c[0] == "lin":
            return ("lin", -c[1] - 1)
        if c[0] == "bdd":
            return ("bdd", B.NOT(c[1]))
        return ("not", c)

    def c_and(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        if a[0] == "bdd" and b[0] == "bdd":
            n = B.AND(a[1], b[1])
            return n if n in (0, 1) else ("bdd", n)
        return ("and", a, b)

    def mkbdd(self, n):
        return n if n in (0, 1) else ("bdd", n)

    def icmp(self, pred, a, b, w, st):
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            r = {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred[-2:]]
            return [(int(r), st)]
        if isinstance(a, Top) or isinstance(b, Top):
            return [(("top", (a if isinstance(a, Top) else b).why), st)]
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.fail("ub:uninit", st, "comparison of an uninitialised value")
            return [(("top", "use of an uninitialised value"), st)]
        if isinstance(a, CondInt) and isinstance(b, int) and pred in ("eq", "ne"):
            if b == 0:
                return [(self.c_not(a.c) if pred == "eq" else a.c, st)]
            if b == 1:
                return [(a.c if pred == "eq" else self.c_not(a.c), st)]
        if w == 1:
            out = []
            for x, s in self.decide(a, st):
                for y, s2 in self.decide(b, s):
                    out += self.icmp(pred, int(x), int(y), 1, s2)
            return out
        if isinstance(a, CondInt) or isinstance(b, CondInt):
            out = []
            for x, s in self.flat_int(a, st):
                for y, s2 in self.flat_int(b, s):
                    out += self.icmp(pred, x, y, w, s2)
            return out
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return [(self.pcmp(pred, a, b, st), st)]
        if isinstance(a, BV) or isinstance(b, BV):
            if isinstance(a, Lin) and a.t:
                return self.split_bv(b, st, lambda v, s: self.icmp(pred, a, v, w, s))
            if isinstance(b, Lin) and b.t:
                return self.split_bv(a, st, lambda v, s: self.icmp(pred, v, b, w, s))
            x, y = self.as_bv(a, w), self.as_bv(b, w)
            if x is None or y is None:
                return [(("top", "comparison of bit-level and affine values"), st)]
            return [(self.bvcmp(pred, x.b, y.b), st)]
        if isinstance(a, (flt.F, Pack, Agg)) or isinstance(b, (flt.F, Pack, Agg)):
            return [(("top", "comparison of raw bytes"), st)]
        if pred in ("eq", "ne"):
            la = a if isinstance(a, Lin) else Lin(sgn(a, w))
            lb = b if isinstance(b, Lin) else Lin(sgn(b, w))
            d = la - lb
            M = 1 << w
            if not d.t:
                r = (d.c % M == 0)
                return [(int(r if pred == "eq" else not r), st)]
            if self.in_range(d, -M + 1, M, st):
                c = ("eq", d)
                return [(c if pred == "eq" else ("not", c), st)]
            # modular: try each side normalised
            out = []
            for x, s in self.norm(la, w, False, st):
                for y, s2 in self.norm(lb, w, False, s):
                    c = ("eq", x - y) if (x - y).t else int((x - y).c == 0)
                    out.append((c if pred == "eq" else self.c_not(c), s2))
            return out
        signed = pred[0] == "s"
        out = []
        for x, s in self.norm(a, w, signed, st):
            for y, s2 in self.norm(b, w, signed, s):
                out.append((self.cmp_lin(pred[1:], x, y), s2))
        return out

    def cmp_lin(self, p, x, y):
        d = {"lt": y - x - 1, "le": y - x, "gt": x - y - 1, "ge": x - y}[p]
        if not d.t:
            return int(d.c >= 0)
        return ("lin", d)

    def bvcmp(self, pred, x, y):
        if pred in ("eq", "ne"):
            n = 1
            for p, q in zip(x, y):
                n = B.AND(n, B.NOT(B.XOR(p, q)))
                if n == 0:
                    break
            return self.mkbdd(n if pred == "eq" else B.NOT(n))
        x, y = list(x), list(y)
        if pred[0] == "s":
            x[-1], y[-1] = B.NOT(x[-1]), B.NOT(y[-1])
        lt = 0
        eq = 1
        for p, q in reversed(list(zip(x, y))):
            lt = B.OR(lt, B.AND(eq, B.AND(B.NOT(p), q)))
            eq = B.AND(eq, B.NOT(B.XOR(p, q)))
        p = pred[1:]
        return self.mkbdd({"lt": lt, "le": B.OR(lt, eq), "ge": B.NOT(lt), "gt": B.NOT(B.OR(lt, eq))}[p])

    def pcmp(self, pred, a, b, st):
        if isinstance(a, int):
            a = Ptr(None, a)
        if isinstance(b, int):
            b = Ptr(None, b)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            return ("top", "comparison of a pointer with an unknown")
        if a.r == b.r:
            d = toL(a.o) - toL(b.o)
            if pred in ("eq", "ne"):
                if not d.t:
                    r = d.c == 0
                    return int(r if pred == "eq" else not r)
                return ("eq", d) if pred == "eq" else ("not", ("eq", d))
            return self.cmp_lin(pred[1:], toL(a.o), toL(b.o))
        if pred in ("eq", "ne"):
            if a.r is None or b.r is None:
                n, p = (a, b) if a.r is None else (b, a)
                if n.o == 0:
                    return int(pred == "ne")
                return ("top", "comparison with a forged address")
            # distinct objects (one past the end of one may equal the other:
            # callers never rely on it)
            return int(pred == "ne")
        if (a.r is None and a.o == 0) or (b.r is None and b.o == 0):
            x = 0 if a.r is None else 1
            y = 0 if b.r is None else 1
            return int({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]])
        return ("top", "ordering of addresses of different objects")

    # generic position leaves out the inputs at which two reals happen to be
    # equal: they are noted, and the driver is analysed again at those
    INPUT = re.compile(r"(x|xa|xb|xk|ua@|ub@)\d+$")

    def note_special(self, d):
        if self.bind or len(self.special) >= 4:
            return
        for nm in sorted((n for n in flt.symbols(d) if self.INPUT.match(n)), reverse=True):
            if any(nm == n for n, _ in self.special):
                return
            v = flt.solve(d, nm)
            if v is not None:
                self.special.append((nm, v))
                return

    def real_sym(self, nm):
        for n, v in self.bind:
            if n == nm:
                return v
        return flt.sym(nm)

    def fcmp(self, pred, a, b, st):
        if isinstance(a, (Top, Undef)) or isinstance(b, (Top, Undef)):
            if isinstance(a, Undef) or isinstance(b, Undef):
                self.fail("ub:uninit", st, "comparison of an uninitialised value")
            return ("top", "comparison of unknown reals")
        if not isinstance(a, flt.F) or not isinstance(b, flt.F):
            return ("top", "comparison of unknown reals")
        if pred in ("ord", "uno"):
            return int(pred == "ord")
        p = pred[1:]
        want = {"eq": {0}, "ne": {-1, 1}, "lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}}.get(p)
        if want is None:
            return ("top", "fcmp " + pred)
        # 0 (op) something: use the sign of the other side directly
        d = flt.sub(a, b)
        if flt.is_zero(a):
            d = flt.neg(b)
        elif flt.is_zero(b):
            d = a
        else:
            # roots are ordered like their arguments
            x, y = flt.square(a), flt.square(b)
            if x is not None and y is not None:
                d = flt.sub(x, y)
        s = flt.sign(d, st.facts)
        # generic position: what is not identically zero is not zero
        if 0 in s and len(s) > 1 and not flt.is_zero(d) and self.hooks.get("generic"):
            self.note_special(d)
            s = s - {0}
            if len(s) == 2 and s <= want:
                return 1
        if s <= want:
            return 1
        if not (s & want):
            return 0
        return ("sgn", d, frozenset(want))

    # ------------------------------------------------------------ memory
    def address(self, p, st):
        """the address as a number: a large unknown multiple of the alignment"""
        r = st.regs.get(p.r)
        if r is None:
            return None
        e = L.sym("address of " + rname(p.r))
        lo, hi = e - 4096, Lin(1 << 50) - e
        if lo not in st.cons:
            st.add(lo)
            st.add(hi)
        return e.scale(r.align) + toL(p.o)

    def region_align(self, p, st):
        r = st.regs.get(p.r)
        if r is None:
            return None
        al = r.align
        o = toL(p.o)
        vals = [o.c] + [k for _, k in o.t]
        for v in vals:
            while al > 1 and v % al:
                al //= 2
        return al

    def getreg(self, p, st, what):
        if not isinstance(p, Ptr):
            if isinstance(p, Undef):
                self.fail("mem:uninit", st, what + " through an uninitialised pointer")
                raise Stop()
            self.broken(what + " through an unknown pointer: %r" % (p,))
        if p.r is None:
            self.fail("mem:null", st, what + " through a null pointer")
            raise Stop()
        if isinstance(p.r, tuple) and p.r[0] == "g" and p.r not in st.regs:
            self.mkglobal(p.r, st)
        r = st.regs.get(p.r)
        if r is None:
            self.fail("mem:dangling", st, what + " of an object that no longer exists (%s)" % rname(p.r))
            raise Stop()
        return r

    def bounds(self, p, n, st, what):
        """obligation 0 <= off, off + n <= size; returns the in-bounds state"""
        r = self.getreg(p, st, what)
        o, size = p.o, r.size
        if isinstance(o, int) and isinstance(size, int) and isinstance(n, int):
            if o < 0 or o + n > size:
                self.fail("mem:bounds", st, "%s of %d bytes at offset %d of %s (%d bytes)" % (what, n, o, rname(p.r), size))
                raise Stop()
            self.ok("mem:bounds")
            return st, r
        lo, n, size = toL(o), toL(n), toL(size)
        hi = size - lo - n
        if L.entails(st.cons, lo) and L.entails(st.cons, hi):
            self.ok("mem:bounds")
            return st, r
        for e in (lo, hi):
            s = self.refine(st, [("lin", -e - 1)])
            if s is not None:
                self.fail("mem:bounds", s, "%s of %s bytes at offset %s of %s (%s bytes)" % (what, n, lo, rname(p.r), size))
        s = self.refine(st, [("lin", lo), ("lin", hi)])
        if s is None:
            raise Stop()
        # continue in the same state object
        st.cons = s.cons
        return st, r

    def mkglobal(self, rid, st):
        g = self.m.globals.get(rid[1])
        if g is None:
            st.regs[rid] = Region("obj", 1 << 20, 16, rid[1], fill="opaque")
            return
        reg = Region("obj", g["size"], g["align"], rid[1], fill=0, ro=g["const"])
        if g["ext"]:
            reg.fill = "opaque"
            reg.size = max(reg.size, 1 << 16)
        for ent in g.get("init", ()):
            off, size, op = ent[0], ent[1], ent[2]
            if op[0] in ("z", "u"):
                continue
            reg.cells[off] = (size, self.const(op, self.T[ent[3]]))
        st.regs[rid] = reg

    def const(self, op, t=None):
        k = op[0]
        if k == "c":
            return int(op[1])
        if k == "f":
            q = bits_to_fraction(op[1], op[2])
            if q is None:
                return flt.sym("nonfinite:" + op[1])
            return flt.const(q)
        if k == "n":
            return Ptr(None, 0)
        if k == "np":
            return Ptr(None, op[1])
        if k == "g":
            n = op[1]
            if n in self.m.funcs:
                return Ptr(("fn", n), op[2])
            return Ptr(("g", n), op[2])
        if k == "u":
            return UNDEF
        if k == "z":
            return self.zero(self.T[op[1]])
        if k == "agg":
            return Agg([self.const(x) for x in op[2]])
        if k == "ce":
            if op[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.const(op[3])
        return Top("constant expression %s" % (op,))

    def zero(self, t):
        if t.k == "i":
            return 0
        if t.k == "f":
            return flt.ZERO
        if t.k == "p":
            return Ptr(None, 0)
        if t.k == "s":
            return Agg([self.zero(self.T[e[0]]) for e in t.elems])
        if t.k in ("a", "v"):
            return Agg([self.zero(self.T[t.et])] * t.n)
        return UNDEF

    def overlap(self, cells, o, n):
        """cells overlapping [o, o+n): exact hit first"""
        out = []
        for k in sorted(cells):
            if k < o + n and k + cells[k][0] > o:
                out.append(k)
        return out

    def cell_write(self, reg, o, n, v):
        cells = reg.cells
        c = cells.get(o)
        if c is not None and c[0] == n:
            cells[o] = (n, v)
            return
        for k in self.overlap(cells, o, n):
            s, old = cells.pop(k)
            if k < o:
                cells[k] = (o - k, self.slice(old, s, 0, o - k))
            if k + s > o + n:
                cells[o + n] = (k + s - o - n, self.slice(old, s, o + n - k, k + s - o - n))
        cells[o] = (n, v)

    def slice(self, v, size, off, n):
        """bytes [off, off+n) of a value"""
        if v is ZEROFILL:
            return ZEROFILL
        if isinstance(v, Undef):
            return UNDEF
        if isinstance(v, int):
            return (v >> (8 * off)) & ((1 << (8 * n)) - 1)
        if isinstance(v, BV):
            return self.bvval((v.b + (0,) * (8 * size - len(v.b)))[8 * off: 8 * (off + n)])
        if isinstance(v, CondInt):
            return v if off == 0 else 0
        if isinstance(v, Pack):
            out = []
            for o, s, x in v.c:
                if o >= off and o + s <= off + n:
                    out.append((o - off, s, x))
                elif o < off + n and o + s > off:
                    a, b = max(o, off), min(o + s, off + n)
                    out.append((a - off, b - a, self.slice(x, s, a - o, b - a)))
            if len(out) == 1 and out[0][0] == 0 and out[0][1] == n:
                return out[0][2]
            return Pack(out, n)
        if off == 0 and n == size:
            return v
        return Top("part of a value")

    def conv(self, v, t, size):
        """a stored value read back as type t"""
        if v is ZEROFILL:
            return self.zero(t)
        if isinstance(v, (Top, Undef)):
            return v
        k = t.k
        if k == "i":
            if isinstance(v, int):
                return v & ((1 << t.w) - 1)
            if isinstance(v, (Lin, BV, CondInt, Ptr)):
                if isinstance(v, BV) and len(v.b) != t.w:
                    return self.bvval((v.b + (0,) * t.w)[: t.w])
                return v
            if isinstance(v, flt.F):
                return Pack([(0, size, v)], size)
            if isinstance(v, Pack):
                if all(isinstance(x, (int, BV)) or x is ZEROFILL for _, _, x in v.c) and sum(s for _, s, _ in v.c) == v.n:
                    bits = [0] * (8 * v.n)
                    for o, s, x in v.c:
                        bx = (0,) * (8 * s) if x is ZEROFILL else self.as_bv(x, 8 * s).b
                        bits[8 * o: 8 * (o + s)] = list(bx)
                    return self.bvval(bits[: t.w])
                return v
            return Top("reinterpreted as integer")
        if k == "f":
            if isinstance(v, flt.F):
                return v
            if isinstance(v, Pack) and len(v.c) == 1 and v.c[0][0] == 0:
                return self.conv(v.c[0][2], t, size)
            if isinstance(v, int) and v == 0:
                return flt.ZERO
            if isinstance(v, Pack) and v.n == size:
                return v  # several values travelling in one register
            return Top("reinterpreted as real")
        if k == "p":
            if isinstance(v, Ptr):
                return v
            if v == 0:
                return Ptr(None, 0)
            if isinstance(v, Pack) and len(v.c) == 1 and v.c[0][0] == 0:
                return self.conv(v.c[0][2], t, size)
            return Top("reinterpreted as pointer")
        if k in ("s", "a", "v"):
            return self.explode(v, t)
        return Top("type " + t.s)

    def explode(self, v, t):
        """Pack -> Agg of type t"""
        if isinstance(v, Agg):
            return v
        el = self.layout(t)
        out = []
        for et, o in el:
            x = self.slice(v, t.size, o, et.store)
            out.append(self.conv(x, et, et.store))
        return Agg(out)

    def layout(self, t):
        if t.k == "s":
            return [(self.T[e[0]], e[1]) for e in t.elems]
        et = self.T[t.et]
        st = et.size if t.k == "a" else et.store
        return [(et, i * st) for i in range(t.n)]

    def init_sym(self, reg, rid, o, t):
        """named symbol for the unknown initial content of a region"""
        nm = "%s[%s]" % (reg.name, o)
        if reg.info == "bits":
            w = t.w
            key = ("bitsym", reg.name, o, w)
            v = self.hooks.setdefault("bitsyms", {}).get(key)
            if v is None:
                v = BV([B.var("%s.%d" % (nm, i)) for i in range(w)])
                self.hooks["bitsyms"][key] = v
            return v
        if t.k == "i":
            return L.sym(nm + ":i%d" % t.w)
        if t.k == "f":
            return flt.sym(nm)
        if t.k == "p":
            return Ptr(("ext", nm), 0)
        return Top("initial content")

    def load(self, p, t, st, align=1, what="read"):
        """[(value, state)]"""
        if t.k in ("s", "a", "v") and t.k != "v":
            # aggregate load: element by element
            res = [([], st)]
            for et, o in self.layout(t):
                nr = []
                for acc, s in res:
                    q = Ptr(p.r, self.off(toL(p.o) + o)) if isinstance(p, Ptr) else p
                    for v, s2 in self.load(q, et, s, 1, what):
                        nr.append((acc + [v], s2))
                res = nr
            return [(Agg(a), s) for a, s in res]
        n = t.store
        st, reg = self.bounds(p, n, st, what)
        self.alignment(p, reg, align, st, what)
        o = p.o
        if isinstance(o, Lin):
            if reg.kind == "buf":
                return [(self.buf_read(reg, p, t, st), st)]
            r = self.small_offsets(o, reg, st, lambda v, s: self.load(Ptr(p.r, v), t, s, align, what))
            if r is None:
                return [(Top("symbolic offset into %s" % rname(p.r)), st)]
            return r
        if reg.kind == "buf":
            return [(self.buf_read(reg, p, t, st), st)]
        return [(self.cell_read(reg, p.r, o, n, t, st, what), st)]

    def cell_read(self, reg, rid, o, n, t, st, what):
        c = reg.cells.get(o)
        if c is not None and c[0] == n:
            v = self.conv(c[1], t, n)
            if isinstance(v, Undef) and self.ubchecks:
                pass
            return v
        ks = self.overlap(reg.cells, o, n)
        if not ks:
            return self.fillval(reg, rid, o, t)
        parts = []
        pos = o
        for k in ks:
            s, v = reg.cells[k]
            if k > pos:
                if reg.fill == 0:
                    parts.append((pos - o, k - pos, ZEROFILL))
                pos = k
            a, b = max(k, o), min(k + s, o + n)
            parts.append((a - o, b - a, self.slice(v, s, a - k, b - a)))
            pos = b
        if pos < o + n and reg.fill == 0:
            parts.append((pos - o, o + n - pos, ZEROFILL))
        if len(parts) == 1 and parts[0][0] == 0 and parts[0][1] == n:
            return self.conv(parts[0][2], t, n)
        return self.conv(Pack(parts, n), t, n)

    def fillval(self, reg, rid, o, t):
        if reg.fill == 0:
            return self.zero(t)
        if reg.fill == "sym":
            return self.init_sym(reg, rid, o, t)
        if reg.fill == "opaque":
            return Top("content of " + rname(rid))
        return UNDEF

    def small_offsets(self, o, reg, st, k):
        if not isinstance(reg.size, int) or reg.size > 4096:
            return None
        out = []
        any_ = False
        if not (L.entails(st.cons, o) and L.entails(st.cons, -o + reg.size)):
            return None
        step = 1
        from math import gcd
        g = 0
        for _, kf in o.t:
            g = gcd(g, kf)
        for x in range(o.c % g if g else 0, reg.size, g or 1):
            s = self.refine(st, [("lin", o - x), ("lin", -o + x)])
            if s is not None:
                s.sig = s.sig + (("off", x),)
                out += k(x, s)
        return out

    def alignment(self, p, reg, align, st, what):
        if align <= 1:
            return
        o = toL(p.o)
        if reg.fill == "opaque":
            return
        if reg.align % align and reg.align < align:
            self.fail("mem:align", st, "%s needs alignment %d, object %s has %d" % (what, align, rname(p.r), reg.align))
            return
        if o.divisible(align):
            self.ok("mem:align")
            return
        if all(k % align == 0 for _, k in o.t):
            self.fail("mem:align", st, "misaligned %s at offset %s" % (what, o))
            return
        # symbolic residue: a concrete counterexample decides
        st2 = st
        env = L.sample(st2.cons)
        if env is not None and all(s in env for s in o.syms()) and o.eval(env) % align:
            self.fail("mem:align", st, "misaligned %s at offset %s" % (what, o))

    def buf_read(self, reg, p, t, st):
        """content of a symbolic-size buffer"""
        o, n = toL(p.o), t.store
        for lo, hi, val in reversed(reg.log):
            d = lo - o
            if not d.t and d.c == 0 and (hi - lo) == Lin(n) and val is not None and val[0] == "val":
                return self.conv(val[1], t, n)
            # disjoint?
            if L.entails(st.cons, lo - o - n) or L.entails(st.cons, o - hi):
                continue
            # inside a copied range?
            if val is not None and val[0] == "copy" and L.entails(st.cons, o - lo) and L.entails(st.cons, hi - o - n):
                q = Ptr(val[1], self.off(o + val[2]))
                r2 = st.regs.get(q.r)
                if r2 is not None and r2.kind == "buf":
                    return self.init_sym(r2, q.r, self.off(toL(q.o)), t)
            if val is not None and val[0] == "val" and L.entails_eq(st.cons, lo - o) and L.entails_eq(st.cons, hi - lo - n):
                return self.conv(val[1], t, n)
            return Top("buffer content after overlapping writes")
        v = self.init_sym(reg, p.r, self.off(o), t)
        nm = self.symname(v)
        if nm is not None:
            self.hooks.setdefault("elemsyms", {})[nm] = (p.r, o, n)
        return v

    @staticmethod
    def symname(v):
        if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
            return v.t[0][0]
        if isinstance(v, flt.F) and v.op == "sym":
            return v.a[0]
        return None

    def elemsym(self, v, n=None):
        """(region, offset) if v is the unmodified content of a buffer element"""
        nm = self.symname(v)
        e = self.hooks.get("elemsyms", {}).get(nm) if nm is not None else None
        if e is None or (n is not None and e[2] != n):
            return None
        return e

    def buf_write(self, p, n, val, st):
        reg = st.w(p.r)
        lo = toL(p.o)
        hi = lo + n if isinstance(n, (int, Lin)) else lo
        if val[0] == "val":
            e = self.elemsym(val[1], n)
            if e is not None:
                val = ("copy", e[0], e[1] - lo)
        reg.log = reg.log + ((lo, hi, val),)
        self.event(st, Event("W", p.r, lo, hi, val, self.where()))

    def as_copy(self, v, n, st):
        """is a value the initial content of a buffer cell?"""
        return None

    def store(self, p, v, t, st, align=1, what="write"):
        """[state]"""
        if t.k in ("s", "a") or (t.k == "v"):
            if isinstance(v, Agg):
                res = [st]
                for (et, o), x in zip(self.layout(t), v.e):
                    nr = []
                    for s in res:
                        nr += self.store(Ptr(p.r, self.off(toL(p.o) + o)), x, et, s, 1, what)
                    res = nr
                return res
        n = t.store
        st, reg = self.bounds(p, n, st, what)
        self.alignment(p, reg, align, st, what)
        if reg.ro:
            self.fail("mem:const", st, "write to constant object " + rname(p.r))
            raise Stop()
        if reg.kind == "buf":
            self.buf_write(p, n, ("val", v), st)
            return [st]
        if isinstance(p.o, Lin):
            r = self.small_offsets(p.o, reg, st, lambda x, s: [(None, y) for y in self.store(Ptr(p.r, x), v, t, s, align, what)])
            if r is None:
                self.broken("write at a symbolic offset of " + rname(p.r))
            return [s for _, s in r]
        reg = st.w(p.r)
        if isinstance(v, Pack):
            self.cell_write(reg, p.o, n, UNDEF)
            del reg.cells[p.o]
            for o, s, x in v.c:
                self.cell_write(reg, p.o + o, s, x)
        else:
            self.cell_write(reg, p.o, n, v)
        if reg.info == "watch":
            self.event(st, Event("W", p.r, Lin(p.o), Lin(p.o + n), ("val", v), self.where()))
        return [st]

    def memcpy(self, d, s, n, st, move=False):
        if isinstance(n, Lin) and not n.t:
            n = n.c
        if n == 0:
            return [st]
        nl = toL(n)
        if isinstance(n, Lin):
            res = []
            z = self.refine(st, [("lin", nl), ("lin", -nl)])
            nz = self.refine(st, [("lin", nl - 1)])
            neg = self.refine(st, [("lin", -nl - 1)])
            if neg is not None:
                self.fail("mem:bounds", neg, "copy of a negative (huge) number of bytes: %s" % n)
            for c in (z, nz):
                if c is not None and z is not None and nz is not None:
                    c.sig = c.sig + (("mcpy", c is z),)
            if z is not None:
                res.append(z)
            if nz is not None:
                try:
                    res += self.memcpy_nz(d, s, n, nz, move)
                except Stop:
                    pass
            return res
        return self.memcpy_nz(d, s, n, st, move)

    def memcpy_nz(self, d, s, n, st, move):
        st, rs = self.bounds(s, n, st, "read (block copy)")
        st, rd = self.bounds(d, n, st, "write (block copy)")
        if rd.ro:
            self.fail("mem:const", st, "write to constant object " + rname(d.r))
            raise Stop()
        if not move and s.r == d.r and s != d:
            dd = toL(d.o) - toL(s.o)
            nn = toL(n)
            if not (L.entails(st.cons, dd - nn) or L.entails(st.cons, -dd - nn)):
                self.fail("mem:overlap", st, "memcpy between overlapping ranges")
        if rd.kind == "buf" or rs.kind == "buf":
            if rd.kind != "buf":
                # out of a buffer into an object: element content as symbols
                if isinstance(n, int):
                    reg = st.w(d.r)
                    if isinstance(d.o, int):
                        t8 = self.int_type(n)
                        self.cell_write(reg, d.o, n, self.buf_read_raw(rs, s, n, st))
                        if reg.info == "watch":
                            self.event(st, Event("W", d.r, Lin(d.o), Lin(d.o + n), ("copy", s.r, toL(s.o) - d.o), self.where()))
                        return [st]
                self.broken("block copy of symbolic length into an object")
            self.event_src(st, d, s, n)
            return [st]
        if isinstance(n, Lin) or isinstance(s.o, Lin) or isinstance(d.o, Lin):
            if isinstance(n, Lin) and isinstance(rs.size, int) and rs.size <= 4096:
                out = []
                for x in range(0, rs.size + 1):
                    s2 = self.refine(st, [("lin", n - x), ("lin", -n + x)])
                    if s2 is not None:
                        out += self.memcpy(d, s, x, s2, move)
                return out
            self.broken("block copy at symbolic offsets")
        parts = []
        for k in self.overlap(rs.cells, s.o, n):
            sz, v = rs.cells[k]
            a, b = max(k, s.o), min(k + sz, s.o + n)
            parts.append((a - s.o, b - a, v if (a == k and b == k + sz) else self.slice(v, sz, a - k, b - a)))
        reg = st.w(d.r)
        self.cell_write(reg, d.o, n, UNDEF)
        del reg.cells[d.o]
        pos = 0
        for o, sz, v in parts:
            if o > pos:
                self.copy_gap(rs, reg, s, d, pos, o)
            reg.cells[d.o + o] = (sz, v)
            pos = o + sz
        if pos < n:
            self.copy_gap(rs, reg, s, d, pos, n)
        if reg.info == "watch":
            self.event(st, Event("W", d.r, Lin(d.o), Lin(d.o + n), ("copy", s.r, Lin(s.o - d.o)), self.where()))
        return [st]

    def int_type(self, n):
        for t in self.T:
            if t.k == "i" and t.w == 8 * n:
                return t
        return None

    def buf_read_raw(self, reg, p, n, st):
        t = self.int_type(n)
        if t is None:
            return Top("raw buffer content")
        return self.buf_read(reg, p, t, st)

    def copy_gap(self, rs, reg, s, d, a, b):
        if rs.fill == 0:
            if reg.fill == 0:
                return
            reg.cells[d.o + a] = (b - a, ZEROFILL)
        elif rs.fill == "opaque":
            reg.cells[d.o + a] = (b - a, Top("opaque content"))
        elif rs.fill == "sym":
            reg.cells[d.o + a] = (b - a, Top("partial symbolic content"))
        elif reg.fill is not None:
            reg.cells[d.o + a] = (b - a, UNDEF)

    def event_src(self, st, d, s, n):
        lo = toL(d.o)
        val = ("copy", s.r, toL(s.o) - lo)
        so = toL(s.o)
        for a, b, v in st.regs[s.r].log:
            if not (L.entails(st.cons, a - so - n) or L.entails(st.cons, so - b)):
                val = ("copy of modified", s.r, so - lo)
        reg = st.w(d.r)
        reg.log = reg.log + ((lo, lo + n, val),)
        self.event(st, Event("W", d.r, lo, lo + n, val, self.where()))

    def memset(self, d, v, n, st):
        if isinstance(n, Lin) and n.t:
            st, r = self.bounds(d, n, st, "block fill")
            if r.kind == "buf":
                reg = st.w(d.r)
                lo = toL(d.o)
                reg.log = reg.log + ((lo, lo + n, ("fill", v)),)
                self.event(st, Event("W", d.r, lo, lo + n, ("fill", v), self.where()))
                return [st]
            self.broken("block fill of symbolic length")
        n = n if isinstance(n, int) else n.c
        if n == 0:
            return [st]
        st, r = self.bounds(d, n, st, "block fill")
        if r.kind == "buf":
            reg = st.w(d.r)
            lo = toL(d.o)
            reg.log = reg.log + ((lo, lo + n, ("fill", v)),)
            self.event(st, Event("W", d.r, lo, lo + n, ("fill", v), self.where()))
            return [st]
        if r.ro:
            self.fail("mem:const", st, "write to constant object")
            raise Stop()
        reg = st.w(d.r)
        if v == 0:
            self.cell_write(reg, d.o, n, ZEROFILL)
        elif isinstance(v, int):
            self.cell_write(reg, d.o, n, int.from_bytes(bytes([v & 255]) * n, "little"))
        else:
            self.cell_write(reg, d.o, n, Top("fill"))
        if reg.info == "watch":
            self.event(st, Event("W", d.r, Lin(d.o), Lin(d.o + n), ("fill", v), self.where()))
        return [st]

    # ------------------------------------------------------------ events
    def event(self, st, e):
        st.ev = self.push_event(st, st.ev, e)

    def push_event(self, st, evs, e):
        """append, merging with an adjacent segment of the same kind"""
        if e.rid is not None and e.lo is not None and evs:
            p = evs[-1]
            if p.kind == e.kind and p.rid == e.rid and p.lo is not None and self.mergeable(p, e):
                if L.entails_eq(st.cons, p.hi - e.lo):
                    return evs[:-1] + (Event(p.kind, p.rid, p.lo, e.hi, self.seg_ex(p.ex), p.where),)
                if L.entails_eq(st.cons, e.hi - p.lo):
                    return evs[:-1] + (Event(p.kind, p.rid, e.lo, p.hi, self.seg_ex(p.ex), p.where),)
        return evs + (e,)

    def seg_ex(self, ex):
        return ex

    def mergeable(self, p, e):
        if p.ex is None or e.ex is None:
            return p.ex is None and e.ex is None
        if p.kind == "W":
            a, b = p.ex, e.ex
            if a[0] == "copy" and b[0] == "copy":
                return a[1] == b[1] and a[2] == b[2]
            return False
        return p.ex == e.ex and p.ex[0] == "seg"

    def normalise(self, st, evs):
        evs = list(evs)
        evs = [e for e in evs if e.lo is None or not L.entails_eq(st.cons, e.hi - e.lo)]
        changed = True
        while changed:
            changed = False
            for i in range(len(evs)):
                for j in range(len(evs)):
                    if i == j or evs[i].lo is None or evs[j].lo is None:
                        continue
                    p, e = evs[i], evs[j]
                    if p.kind == e.kind and p.rid == e.rid and self.mergeable(p, e) and L.entails_eq(st.cons, p.hi - e.lo):
                        evs[i] = Event(p.kind, p.rid, p.lo, e.hi, p.ex, p.where)
                        del evs[j]
                        changed = True
                        break
                if changed:
                    break
        return evs

    def veq(self, a, b, st):
        """True / False / None(unknown) / ('cond', c)"""
        if a is ZEROFILL or b is ZEROFILL:
            x = b if a is ZEROFILL else a
            if x is ZEROFILL or x == 0 or (isinstance(x, flt.F) and flt.is_zero(x)) or (isinstance(x, Ptr) and x.r is None and x.o == 0):
                return True
            if isinstance(x, Lin):
                return ("eq", x)
            if isinstance(x, (Ptr,)):
                return False
            return None
        if a is not b and type(a) is type(b):
            p, q = self.elemsym(a), self.elemsym(b)
            if p is not None and q is not None and p[0] == q[0] and p[2] == q[2]:
                d = p[1] - q[1]
                return ("eq", d) if d.t else d.c == 0
        if isinstance(a, flt.F) and isinstance(b, flt.F):
            return flt.same(a, b)
        if isinstance(a, (Top, Undef)) or isinstance(b, (Top, Undef)):
            return True if isinstance(a, Undef) and isinstance(b, Undef) else None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r != b.r:
                return False
            d = toL(a.o) - toL(b.o)
            return ("eq", d) if d.t else d.c == 0
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return False
        if isinstance(a, CondInt) or isinstance(b, CondInt):
            if a == b:
                return True
            return None
        if isinstance(a, BV) or isinstance(b, BV):
            n = max(len(x.b) for x in (a, b) if isinstance(x, BV))
            x, y = self.as_bv(a, n), self.as_bv(b, n)
            if x is None or y is None or len(x.b) != len(y.b):
                return None
            c = self.bvcmp("eq", x.b, y.b)
            return bool(c) if isinstance(c, int) else c
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            d = toL(a) - toL(b)
            return ("eq", d) if d.t else d.c == 0
        if isinstance(a, (Pack, Agg)) and a == b:
            return True
        return None

    def compare_logs(self, st, ident, ordered):
        """recorded events == expected events"""
        states = [st]
        # split on emptiness of segments
        for e in list(st.ev) + list(st.exp):
            if e.lo is None:
                continue
            d = e.hi - e.lo
            if not d.t:
                continue
            nxt = []
            for s in states:
                for t, s2 in self.decide(("lin", d - 1), s, note=False):
                    nxt.append(s2)
            states = nxt
        out = []
        for s in states:
            act = self.normalise(s, s.ev)
            exp = self.normalise(s, s.exp)
            msg = self.match(s, act, exp, ordered)
            if msg is None:
                self.ok(ident)
            elif msg[0] == "diff":
                self.fail(ident, s, "%s; happened: %s; required: %s" % (msg[1], act, exp))
            else:
                if self.own(ident):
                    self.undec.append(Report(ident, self.where(), "cannot compare effects: %s; happened: %s; required: %s" % (msg[1], act, exp)))
            s.ev = ()
            s.exp = ()
            out.append(s)
        return out

    def match(self, st, act, exp, ordered):
        if ordered:
            if len(act) != len(exp):
                return ("diff", "different number of effects")
            for a, e in zip(act, exp):
                r = self.ev_eq(a, e, st)
                if r is not True:
                    return self.confirm(st, act, exp, "effect differs: %r instead of %r" % (a, e), r)
            return None
        rest = list(exp)
        for a in act:
            for i, e in enumerate(rest):
                if self.ev_eq(a, e, st) is True:
                    del rest[i]
                    break
            else:
                return self.confirm(st, act, exp, "unexpected effect %r" % (a,), False)
        if rest:
            return self.confirm(st, act, exp, "missing effect %r" % (rest[0],), False)
        return None

    def ev_eq(self, a, e, st):
        if a.kind != e.kind or a.rid != e.rid:
            return False
        if (a.lo is None) != (e.lo is None):
            return False
        if a.lo is not None:
            if not (L.entails_eq(st.cons, a.lo - e.lo) and L.entails_eq(st.cons, a.hi - e.hi)):
                return False
        if a.ex is None and e.ex is None:
            return True
        if a.ex is None or e.ex is None or len(a.ex) != len(e.ex):
            return False
        for x, y in zip(a.ex, e.ex):
            if x == y:
                continue
            if isinstance(x, (str, tuple)) and not isinstance(x, Lin) and isinstance(y, (str, tuple)):
                return False
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None or isinstance(x, tuple) or isinstance(y, tuple):
                return False
            r = self.veq(x, y, st)
            if r is True:
                continue
            if r is None:
                return None
            if r is False:
                return False
            if not self.implied(r, st):
                return False
        return True

    def confirm(self, st, act, exp, msg, r):
        """evaluate both ledgers at an integer point: definite difference?"""
        if r is None:
            return ("unknown", msg)
        env = L.sample(st.cons)
        if env is None:
            return ("unknown", msg)

        def ev(x):
            if isinstance(x, Lin):
                return sum(k * env.get(s, 0) for s, k in x.t) + x.c
            if isinstance(x, Ptr):
                return (x.r, ev(x.o))
            if isinstance(x, tuple):
                return tuple(ev(y) for y in x)
            if isinstance(x, (flt.F,)):
                return x.fp
            return x

        def units(evs):
            out = {}
            for e in evs:
                if e.lo is None:
                    k = (e.kind, e.rid, None, ev(e.ex) if e.ex else None)
                    out[k] = out.get(k, 0) + 1
                    continue
                lo, hi = ev(e.lo), ev(e.hi)
                if hi - lo > 100000:
                    return None
                if e.ex and e.ex[0] == "val":
                    k = (e.kind, e.rid, lo, hi, ev(e.ex))
                    out[k] = out.get(k, 0) + 1
                    continue
                for b in range(lo, hi):
                    k = (e.kind, e.rid, b, ev(e.ex) if e.ex else None)
                    out[k] = out.get(k, 0) + 1
            return out

        a, e = units(act), units(exp)
        if a is None or e is None or a == e:
            if a is not None and a == e:
                # order or segmentation only at this point: not a difference here
                return ("unknown", msg)
            return ("diff", msg)
        return ("diff", msg)

    # ------------------------------------------------------------ functions
    def cfg(self, fn):
        if fn.cfg is not None:
            return fn.cfg
        n = len(fn.blocks)
        succ = []
        for b in fn.blocks:
            t = b[-1]
            if t["op"] == "br":
                succ.append(list(t["bb"]))
            elif t["op"] == "switch":
                succ.append([t["def"]] + [c[1] for c in t["cases"]])
            elif t["op"] == "invoke":
                succ.append([t["ok"], t["uw"]])
            else:
                succ.append([])
        order, seen = [], set()

        def dfs(root):
            stack = [(root, iter(succ[root]))]
            seen.add(root)
            onpath = {root}
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        onpath.add(s)
                        stack.append((s, iter(succ[s])))
                        break
                    elif s in onpath:
                        back.add((b, s))
                else:
                    order.append(b)
                    onpath.discard(b)
                    stack.pop()
        back = set()
        dfs(0)
        rpo = {b: i for i, b in enumerate(reversed(order))}
        preds = [[] for _ in range(n)]
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        # natural loops
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += [p for p in preds[x] if p in rpo]
        # liveness of registers across blocks
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def vops(i):
            for o in i["o"]:
                if o and o[0] == "v":
                    yield o[1]
            if "callee" in i and i["callee"][0] == "v":
                yield i["callee"][1]
            for v in i.get("vars", ()):
                if v[0][0] == "v":
                    yield v[0][1]
        phiuse = {}
        phin = {}
        for bi in rpo:
            for i in fn.blocks[bi]:
                if i["op"] == "phi":
                    for v, pb in i["in"]:
                        if v[0] == "v":
                            phiuse.setdefault(pb, set()).add(v[1])
                            phin.setdefault((bi, pb), set()).add(v[1])
                else:
                    for v in vops(i):
                        if v not in dfn[bi]:
                            use[bi].add(v)
                if "r" in i:
                    dfn[bi].add(i["r"])
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for bi in order:
                o = set(phiuse.get(bi, ()))
                for s in succ[bi]:
                    o |= live[s]
                ni = use[bi] | (o - dfn[bi])
                if ni != live[bi]:
                    live[bi] = ni
                    ch = True
        fn.cfg = dict(succ=succ, rpo=rpo, preds=preds, loops=loops, live=live, phiuse=phin)
        return fn.cfg

    def merge_outcomes(self, outs):
        """drop or join disjuncts that differ only in their constraints"""
        if len(outs) < 2:
            return outs
        res = []
        for o in outs:
            for r in res:
                if r.kind == o.kind and r.val == o.val and self.join_into(r, o):
                    break
            else:
                res.append(o)
        return res

    def join_into(self, r, o):
        """merge state o.st into r.st if lossless (or merging was requested)"""
        a, b = r.st, o.st
        if a.flags is not b.flags and a.flags != b.flags:
            return False
        lossy = a.flags.get("merge")
        if not lossy:
            if a.cons != b.cons and set(a.cons) != set(b.cons):
                return False
            if a.facts != b.facts:
                return False
        if a.ev != b.ev or a.exp != b.exp or a.outs != b.outs:
            return False
        if a.regs.keys() != b.regs.keys():
            return False
        for k, x in a.regs.items():
            y = b.regs[k]
            if x is not y and not x.same(y):
                return False
        pc = B.OR(a.pc, b.pc)
        n = a.clone()
        n.pc = pc
        if set(a.imp) != set(b.imp):
            n.imp = tuple(sorted(set(a.imp) | set(b.imp)))
        if lossy:
            ca, cb = a.cons, b.cons
            if ca != cb:
                n.cons = ()
                for e in ca:
                    if L.entails(cb, e):
                        n.add(e)
                for e in cb:
                    if L.entails(ca, e):
                        n.add(e)
            if a.facts is not b.facts:
                f = {}
                for k, s in a.facts.items():
                    if k in b.facts:
                        u = s | b.facts[k]
                        if len(u) < 3:
                            f[k] = u
                n.facts = f
            n.sig = ()
        r.st = n
        return True

    def call_fn(self, fn, args, st, depth):
        """abstract transformer of a function: [Outcome]"""
        if depth > 3000:
            self.broken("call depth")
        self.fns.add(fn.name)
        self.stack.append((fn, None))
        saved = len(self.stack)
        try:
            outs = self.run_fn(fn, args, st, depth)
        finally:
            del self.stack[saved - 1:]
        return self.merge_outcomes(outs)

    def run_fn(self, fn, args, st, depth):
        cfg = self.cfg(fn)
        regs = {}
        allocas = []
        for (pid, pt, byval), a in zip(fn.params, args):
            if byval:
                rid = (depth, fn.name, pid)
                st.regs[rid] = Region("obj", byval, 16, "byval", None)
                allocas.append(rid)
                for s in self.memcpy(Ptr(rid, 0), a, byval, st):
                    st = s
                a = Ptr(rid, 0)
            regs[pid] = a
        heap = []
        cnt = itertools.count()

        def push(b, prev, regs, st, trail):
            heapq.heappush(heap, (cfg["rpo"][b], next(cnt), b, prev, regs, st, trail))

        push(0, None, regs, st, {})
        outs = []
        items = 0
        while heap:
            prio, _, b, prev, regs, st, trail = heapq.heappop(heap)
            # other disjuncts waiting at this point
            group = [(prev, regs, st, trail)]
            if len(cfg["preds"][b]) > 1:
                while heap and heap[0][0] == prio:
                    x = heapq.heappop(heap)
                    group.append((x[3], x[4], x[5], x[6]))
                if len(group) > 1:
                    group = self.merge_group(fn, cfg, b, group)
            for prev, regs, st, trail in group:
                items += 1
                self.nstates += 1
                if items > self.MAX_ITEMS:
                    self.broken("too many abstract states in " + fn.dname)
                if b in cfg["loops"]:
                    r = self.at_loop_head(fn, cfg, b, prev, regs, st, trail)
                    if r is None:
                        continue
                    regs, st, trail = r
                self.run_block(fn, cfg, b, prev, regs, st, trail, push, outs, depth, allocas)
        for o in outs:
            for k in [k for k in o.st.regs if isinstance(k, tuple) and k[0] == depth and k[1] == fn.name]:
                del o.st.regs[k]
        return outs

    def merge_group(self, fn, cfg, b, group):
        has_phi = fn.blocks[b][0]["op"] == "phi"
        live = cfg["live"][b]
        res = []
        for prev, regs, st, trail in group:
            for g in res:
                if has_phi and g[0] != prev:
                    continue
                if trail.keys() != g[3].keys() or trail:
                    continue
                if any(regs.get(v) != g[1].get(v) for v in live):
                    continue
                if has_phi and any(regs.get(v) != g[1].get(v) for v in cfg["phiuse"].get((b, prev), ())):
                    continue
                o1 = Outcome("x", None, g[2])
                if self.join_into(o1, Outcome("x", None, st)):
                    g[2] = o1.st
                    break
            else:
                res.append([prev, regs, st, trail])
        return [tuple(g) for g in res]

    # -------------------------------------------------------- loop summaries
    def snapshot(self, cfg, b, regs, st):
        vals = {}
        for v in cfg["live"][b]:
            if v in regs:
                vals[("r", v)] = regs[v]
        st.tok = object()  # regions are copied before the next write
        return (vals, dict(st.regs), st.ev, st.exp, st.cons, len(st.sig), st.sig)

    def vdelta(self, a, b):
        """constant difference b - a, 0 if equal, None if not comparable"""
        if a is b or a == b:
            return 0
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            d = toL(b) - toL(a)
            return d.c if not d.t else None
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            d = toL(b.o) - toL(a.o)
            return d.c if not d.t else None
        return None

    def sdelta(self, s0, s1):
        """{path: delta} between two snapshots of equal shape, or None"""
        out = {}
        if s0[0].keys() != s1[0].keys():
            return None
        for k in s0[0]:
            d = self.vdelta(s0[0][k], s1[0][k])
            if d is None:
                return None
            if d:
                out[k] = d
        r0, r1 = s0[1], s1[1]
        if r0.keys() != r1.keys():
            return None
        for k in r0:
            x, y = r0[k], r1[k]
            if x is y:
                continue
            if x.kind != y.kind or x.fill != y.fill or x.size != y.size:
                return None
            if x.cells.keys() != y.cells.keys():
                return None
            for o in x.cells:
                if x.cells[o][0] != y.cells[o][0]:
                    return None
                d = self.vdelta(x.cells[o][1], y.cells[o][1])
                if d is None:
                    return None
                if d:
                    out[("m", k, o)] = d
            if x.log != y.log:
                # buffer write logs are summarised through the event ledger
                out[("log", k)] = None
        for tag, a, c in (("ev", s0[2], s1[2]), ("exp", s0[3], s1[3])):
            if len(a) != len(c):
                return None
            for i, (p, q) in enumerate(zip(a, c)):
                if p is q or p == q:
                    continue
                if p.kind != q.kind or p.rid != q.rid or p.lo is None or q.lo is None:
                    return None
                if p.ex != q.ex:
                    return None
                dl, dh = self.vdelta(p.lo, q.lo), self.vdelta(p.hi, q.hi)
                if dl is None or dh is None:
                    return None
                out[(tag, i)] = (dl, dh)
        return out

    def at_loop_head(self, fn, cfg, b, prev, regs, st, trail):
        if prev not in cfg["loops"][b]:
            # entry from outside: forget older trails of this loop
            trail = dict(trail)
            for h in list(trail):
                if h == b:
                    del trail[h]
            trail[b] = ((self.snapshot(cfg, b, regs, st),), None)
            return regs, st, trail
        hist, summ = trail.get(b, ((), None))
        snap = self.snapshot(cfg, b, regs, st)
        if len(hist) > 5000:
            self.broken("loop does not converge")
        if summ is not None:
            k, gsnap, delta, gsig, gcons = summ
            itsig = self.itersig(snap, gsnap)
            if itsig == gsig:
                # must be the summary at k + 1
                if self.check_inductive(gsnap, snap, delta, k, st, gcons):
                    return None
                if self.accel > 200:
                    self.broken("loop summary is not inductive in " + fn.dname)
                self.broken("loop summary is not inductive in " + fn.dname)
            # left the summarised pattern: start a new one from here
            trail = dict(trail)
            trail[b] = ((snap,), None)
            return regs, st, trail
        hist = hist + (snap,)
        if len(hist) >= 3:
            sig1 = self.itersig(hist[-1], hist[-2])
            sig0 = self.itersig(hist[-2], hist[-3])
            if sig1 and sig1 == sig0 and self.exit_undecided(sig1):
                d1 = self.sdelta(hist[-2], hist[-1])
                if d1:
                    g = self.accelerate(cfg, b, hist, regs, st, d1)
                    if g is not None:
                        regs, st, summ = g
                        trail = dict(trail)
                        trail[b] = ((summ[1],), summ)
                        self.accel += 1
                        return regs, st, trail
            if len(hist) > 300 and sig1:
                self.broken("loop with an undecided exit is not affine in " + fn.dname)
        trail = dict(trail)
        trail[b] = (hist, None)
        return regs, st, trail

    def itersig(self, new, old):
        s = new[6][old[5]:]
        return tuple((x[0] if isinstance(x[0], str) else "c", x[1]) for x in s)

    def exit_undecided(self, sig):
        return any(x[0] in ("lin", "eq", "c") for x in sig)

    def accelerate(self, cfg, b, hist, regs, st, delta):
        """summary: last state + k * delta, k >= 0"""
        s1, s2 = hist[-2], hist[-1]
        new2 = [e for e in s2[4] if e not in s1[4]]
        new1 = [e for e in s1[4] if e not in hist[-3][4]]
        # constraints of the last iteration, shifted by a constant
        shifts = []
        used = set()
        for e in new2:
            cand = [x for x in new1 if x.t == e.t]
            if len(cand) != 1:
                # same direction must appear in both iterations
                if not cand:
                    continue
                return None
            shifts.append((e, e.c - cand[0].c))
        if not any(g < 0 for _, g in shifts):
            return None  # nothing bounds the number of iterations: the exit is decided by something else
        kname = "#k%d" % next(self.fresh)
        k = L.sym(kname)
        n = st.clone()
        nregs = dict(regs)

        def shift(v, d):
            if isinstance(v, Ptr):
                return Ptr(v.r, toL(v.o) + k.scale(d))
            return toL(v) + k.scale(d)
        for key, d in delta.items():
            if key[0] == "r":
                nregs[key[1]] = shift(regs[key[1]], d)
            elif key[0] == "m":
                reg = n.w(key[1])
                sz, v = reg.cells[key[2]]
                if sz < 1:
                    return None
                reg.cells[key[2]] = (sz, shift(v, d))
            elif key[0] == "log":
                reg = n.w(key[1])
                reg.log = reg.log + ((Lin(0), toL(reg.size), None),)
            else:
                lst = list(getattr(n, key[0]))
                e = lst[key[1]]
                lst[key[1]] = Event(e.kind, e.rid, e.lo + k.scale(d[0]), e.hi + k.scale(d[1]), e.ex, e.where)
                setattr(n, key[0], tuple(lst))
        n.add(k)
        gcons = []
        for e, g in shifts:
            c = e + k.scale(g)
            n.add(c)
            gcons.append((e, g))
        n.sig = n.sig + (("accel", kname),)
        gs = self.snapshot(cfg, b, nregs, n)
        gsig = self.itersig(s2, s1)
        return nregs, n, (kname, gs, delta, gsig, gcons)

    def check_inductive(self, g, snap, delta, k, st, gcons):
        d = self.sdelta(g, snap)
        if d is None:
            return False
        for key in set(d) | set(delta):
            if key[0] == "log":
                continue
            if d.get(key) != delta.get(key):
                return False
        # the new state must satisfy the summary's constraints at k + 1
        for e, gm in gcons:
            c = e + L.sym(k).scale(gm) + gm
            if not L.entails(st.cons, c):
                return False
        return True

    # -------------------------------------------------------- blocks
    def val(self, o, regs):
        if o[0] == "v":
            return regs[o[1]]
        return self.const(o)

    def run_block(self, fn, cfg, b, prev, regs, st, trail, push, outs, depth, allocas):
        block = fn.blocks[b]
        work = [(0, regs, st)]
        first = True
        while work:
            idx, regs, st = work.pop()
            if idx == 0:
                # phis in parallel
                new = {}
                while block[idx]["op"] == "phi":
                    i = block[idx]
                    for v, pb in i["in"]:
                        if pb == prev:
                            new[i["r"]] = self.val(v, regs)
                            break
                    idx += 1
                if new:
                    regs = dict(regs)
                    regs.update(new)
            try:
                self.run_insts(fn, cfg, b, idx, dict(regs), st, trail, push, outs, depth, work)
            except Stop:
                pass

    def run_insts(self, fn, cfg, b, idx, regs, st, trail, push, outs, depth, work):
        block = fn.blocks[b]
        n = len(block)
        si = len(self.stack) - 1
        while idx < n:
            i = block[idx]
            self.ninst += 1
            self.stack[si] = (fn, i)
            op = i["op"]
            if op == "br":
                bb = i["bb"]
                if len(bb) == 1:
                    push(bb[0], b, regs, st, trail)
                    return
                c = self.val(i["o"][0], regs)
                if isinstance(c, Undef) or isinstance(c, Top):
                    if isinstance(c, Undef):
                        self.fail("ub:uninit", st, "branch on an uninitialised value")
                    c = ("top", "branch on unknown value: %r" % (c,))
                ds = self.decide(c, st)
                for t, s in ds:
                    push(bb[0] if t else bb[1], b, regs if len(ds) == 1 else dict(regs), s, trail)
                return
            if op == "ret":
                v = self.val(i["o"][0], regs) if i["o"] else None
                outs.append(Outcome("ret", v, st))
                return
            if op == "call" or op == "invoke":
                args = [self.val(o, regs) if o[0] != "m" else None for o in i["o"]]
                res = self.do_call(fn, i, args, regs, st, depth)
                self.stack[si] = (fn, i)
                rets = [o for o in res if o.kind == "ret"]
                for o in res:
                    if o.kind != "ret":
                        if op == "invoke":
                            self.unwind_to(fn, i, b, o, regs, trail, push, outs)
                        else:
                            outs.append(o)
                if op == "invoke":
                    for o in rets:
                        r2 = dict(regs)
                        if "r" in i:
                            r2[i["r"]] = o.val
                        push(i["ok"], b, r2, o.st, trail)
                    return
                if not rets:
                    return
                for o in rets[1:]:
                    r2 = dict(regs)
                    if "r" in i:
                        r2[i["r"]] = o.val
                    work.append((idx + 1, r2, o.st))
                if "r" in i:
                    regs[i["r"]] = rets[0].val
                st = rets[0].st
                idx += 1
                continue
            if op == "unreachable":
                self.fail("ub:unreachable", st, "control reaches the end of a non-void function or an unreachable point")
                return
            if op == "resume":
                v = self.val(i["o"][0], regs)
                outs.append(Outcome("unw", v.e[0], st))
                return
            if op == "switch":
                v = self.val(i["o"][0], regs)
                w = self.T[i["ot"][0]].w
                rest = [st]
                for cv, tb in i["cases"]:
                    nxt = []
                    for s in rest:
                        for c, s2 in self.icmp("eq", v, int(cv), w, s):
                            for t, s3 in self.decide(c, s2):
                                if t:
                                    push(tb, b, dict(regs), s3, trail)
                                else:
                                    nxt.append(s3)
                    rest = nxt
                for s in rest:
                    push(i["def"], b, dict(regs), s, trail)
                return
            # simple instructions
            res = self.simple(op, i, regs, st, depth, fn)
            if res is None:
                idx += 1
                continue
            if not res:
                return
            for v, s in res[1:]:
                r2 = dict(regs)
                if "r" in i:
                    r2[i["r"]] = v
                work.append((idx + 1, r2, s))
            v, st = res[0]
            if "r" in i:
                regs[i["r"]] = v
            idx += 1

    def unwind_to(self, fn, i, b, o, regs, trail, push, outs):
        """match the landing pad of the unwind destination"""
        lp = None
        for x in fn.blocks[i["uw"]]:
            if x["op"] == "landingpad":
                lp = x
                break
        exc = o.val
        ty = exc.r[1] if isinstance(exc, Ptr) and isinstance(exc.r, tuple) and exc.r[0] == "exc" else "?"
        sel = None
        for kind, v in lp["clauses"]:
            if kind != "catch":
                continue
            if v[0] == "n":
                sel = self.tid("*")
                break
            if v[0] == "g" and (v[1] == ty or v[1] in EXC_BASES.get(ty, ())):
                sel = self.tid(v[1])
                break
        if sel is None:
            if not lp["cleanup"]:
                outs.append(o)
                return
            sel = 0
        s = o.st
        r2 = dict(regs)
        r2["lp"] = (exc, sel)
        push(i["uw"], b, r2, s, trail)

    def tid(self, name):
        return self.tids.setdefault(name, len(self.tids) + 1)

    def f2(self, fnc, a, b):
        for x in (a, b):
            if isinstance(x, Top):
                return x
            if isinstance(x, Undef):
                return Top("use of an uninitialised value")
        if isinstance(a, Agg) and isinstance(b, Agg):
            return Agg([self.f2(fnc, x, y) for x, y in zip(a.e, b.e)])
        if not isinstance(a, flt.F) or not isinstance(b, flt.F):
            return Top("real operation on a non-real")
        return fnc(a, b)

    def simple(self, op, i, regs, st, depth, fn):
        o = i["o"]
        if op == "load":
            p = self.val(o[0], regs)
            return self.load(p, self.T[i["t"]], st, i.get("align", 1))
        if op == "store":
            v = self.val(o[0], regs)
            p = self.val(o[1], regs)
            return [(None, s) for s in self.store(p, v, self.T[i["ot"][0]], st, i.get("align", 1))]
        if op == "alloca":
            rid = (depth, fn.name, i["r"])
            r = Region("obj", i["asz"], i["align"], "local", None)
            r.owner = st.tok
            st.regs[rid] = r
            return [(Ptr(rid, 0), st)]
        if op == "getelementptr":
            p = self.val(o[0], regs)
            if isinstance(p, (Top, Undef)):
                return [(p if isinstance(p, Top) else Top("arithmetic on an uninitialised pointer"), st)]
            if i.get("bad"):
                return [(Top("address computation"), st)]
            if not isinstance(p, Ptr):
                return [(Top("address computation on an integer"), st)]
            res = [(toL(p.o) + i["off"], st)]
            for v, sc in i["vars"]:
                x = self.val(v, regs)
                nr = []
                for acc, s in res:
                    if isinstance(x, CondInt):
                        for y, s2 in self.flat_int(x, s):
                            nr.append((acc + y * sc, s2))
                        continue
                    if isinstance(x, BV):
                        nr += self.split_bv(x, s, lambda v, s2: [(acc + sgn(v, len(x.b)) * sc, s2)])
                        continue
                    if isinstance(x, (Top, Undef)):
                        return [(Top("unknown index"), st)]
                    if isinstance(x, int):
                        w = 64
                        nr.append((acc + sgn(x, self.m.ptr_bits if x >> 32 else 64) * sc if x < (1 << 63) else acc + sgn(x, 64) * sc, s))
                        continue
                    nr.append((acc + x.scale(sc), s))
                res = nr
            return [(Ptr(p.r, self.off(e)), s) for e, s in res]
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            return self.binop(op, self.val(o[0], regs), self.val(o[1], regs), self.T[i["t"]].w, st, i)
        if op == "icmp":
            t = self.T[i["ot"][0]]
            w = t.w if t.k == "i" else self.m.ptr_bits
            return self.icmp(i["pred"], self.val(o[0], regs), self.val(o[1], regs), w, st)
        if op == "fcmp":
            return [(self.fcmp(i["pred"], self.val(o[0], regs), self.val(o[1], regs), st), st)]
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            f = {"fadd": flt.add, "fsub": flt.sub, "fmul": flt.mul, "fdiv": flt.div}[op]
            a, b = self.val(o[0], regs), self.val(o[1], regs)
            if op == "fdiv" and isinstance(b, flt.F) and flt.is_zero(b):
                st.imp = st.imp + ("real division by zero",)
                return [(Top("real division by zero"), st)]
            return [(self.f2(f, a, b), st)]
        if op == "fneg":
            a = self.val(o[0], regs)
            return [(flt.neg(a) if isinstance(a, flt.F) else Top("negation of unknown"), st)]
        if op in ("fpext", "fptrunc"):
            a = self.val(o[0], regs)
            key = (op, self.T[i["ot"][0]].s, self.T[i["t"]].s, self.where())
            self.fpcasts[key] = self.fpcasts.get(key, 0) + 1
            if op == "fptrunc" and self.precision and i.get("fl", "").startswith(self.m_root) and FPBITS.get(self.T[i["t"]].s, 999) < self.precision[0] and not self.representable(a, FPBITS[self.T[i["t"]].s]):
                self.fail(self.precision[1], st, "a value is rounded from %s to %s on the way" % (self.T[i["ot"][0]].s, self.T[i["t"]].s))
            return [(a, st)]
        if op in ("sitofp", "uitofp"):
            a = self.val(o[0], regs)
            w = self.T[i["ot"][0]].w
            if self.precision and i.get("fl", "").startswith(self.m_root) and FPBITS.get(self.T[i["t"]].s, 999) < self.precision[0] and not (isinstance(a, int) and abs(sgn(a, w)) <= 1 << FPBITS[self.T[i["t"]].s]):
                self.fail(self.precision[1], st, "an integer is converted to %s on the way" % self.T[i["t"]].s)
            out = []
            for x, s in self.flat_int(a, st):
                if isinstance(x, int):
                    out.append((flt.const(sgn(x, w) if op == "sitofp" else x), s))
                elif isinstance(x, Lin):
                    for y, s2 in self.norm(x, w, op == "sitofp", s):
                        out.append((flt.const(y.c) if not y.t else flt.sym("real(%s)" % y), s2))
                else:
                    out.append((Top("integer to real"), s))
            return out
        if op in ("fptosi", "fptoui"):
            a = self.val(o[0], regs)
            if isinstance(a, flt.F) and a.q is not None:
                return [(int(a.q) % (1 << self.T[i["t"]].w), st)]
            return [(Top("real to integer"), st)]
        if op in ("zext", "sext", "trunc"):
            return self.icast(op, self.val(o[0], regs), self.T[i["ot"][0]].w, self.T[i["t"]].w, st)
        if op in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "freeze"):
            v = self.val(o[0], regs)
            if op == "inttoptr" and isinstance(v, int):
                v = Ptr(None, v)
            if op == "bitcast" and isinstance(v, (flt.F, int, Lin, BV)):
                t0, t1 = self.T[i["ot"][0]], self.T[i["t"]]
                if t0.k != t1.k:
                    v = self.conv(v, t1, t1.store)
            return [(v, st)]
        if op == "select":
            c = self.val(o[0], regs)
            if isinstance(c, (Top, Undef)):
                c = ("top", "select on unknown")
            return [(self.val(o[1] if t else o[2], regs), s) for t, s in self.decide(c, st)]
        if op == "extractvalue":
            v = self.val(o[0], regs)
            for k in i["ix"]:
                v = v.e[k] if isinstance(v, Agg) else (v if isinstance(v, (Top, Undef)) else Top("extractvalue"))
            return [(v, st)]
        if op == "insertvalue":
            return [(self.insval(self.val(o[0], regs), self.T[i["t"]], self.val(o[1], regs), i["ix"]), st)]
        if op == "extractelement":
            v, k = self.val(o[0], regs), self.val(o[1], regs)
            if isinstance(v, Agg) and isinstance(k, int):
                return [(v.e[k], st)]
            return [(Top("extractelement"), st)]
        if op == "insertelement":
            return [(self.insval(self.val(o[0], regs), self.T[i["t"]], self.val(o[1], regs), [self.val(o[2], regs)]), st)]
        if op == "shufflevector":
            a, b = self.val(o[0], regs), self.val(o[1], regs)
            t = self.T[i["ot"][0]]
            ea = list(a.e) if isinstance(a, Agg) else [UNDEF] * t.n
            eb = list(b.e) if isinstance(b, Agg) else [UNDEF] * t.n
            al = ea + eb
            return [(Agg([al[k] if k >= 0 else UNDEF for k in i["ix"]]), st)]
        if op == "landingpad":
            exc, sel = regs["lp"]
            return [(Agg([exc, sel]), st)]
        if op == "fence":
            return None
        if op == "cmpxchg" or op == "atomicrmw" or op == "va_arg":
            self.broken("unsupported instruction " + op)
        self.broken("unsupported instruction " + op)

    def insval(self, v, t, x, ix):
        if not isinstance(v, Agg):
            n = len(t.elems) if t.k == "s" else t.n
            v = Agg([UNDEF] * n)
        e = list(v.e)
        if len(ix) == 1:
            e[ix[0]] = x
        else:
            sub = self.T[t.elems[ix[0]][0]] if t.k == "s" else self.T[t.et]
            e[ix[0]] = self.insval(e[ix[0]], sub, x, ix[1:])
        return Agg(e)

    def icast(self, op, v, w0, w1, st):
        if isinstance(v, (Top, Undef)):
            return [(v, st)]
        if w0 == 1:
            if isinstance(v, int):
                r = v if op != "sext" else (-v) % (1 << w1)
                return [(r, st)]
            if op == "zext":
                if v[0] == "bdd":
                    return [(BV([v[1]] + [0] * (w1 - 1)), st)]
                return [(CondInt(v), st)]
            return [(((1 << w1) - 1) if t else 0, s) for t, s in self.decide(v, st)]
        if isinstance(v, int):
            if op == "zext":
                return [(v, st)]
            if op == "sext":
                return [(sgn(v, w0) % (1 << w1), st)]
            return [(v & ((1 << w1) - 1), st)]
        if isinstance(v, CondInt):
            if op == "trunc" and w1 == 1:
                return [(v.c, st)]
            return [(v, st)]
        if isinstance(v, BV):
            b = v.b
            if len(b) != w0:
                b = (b + (0,) * w0)[:w0]
            if op == "zext":
                return [(self.bvval(b + (0,) * (w1 - w0)), st)]
            if op == "sext":
                return [(self.bvval(b + (b[-1],) * (w1 - w0)), st)]
            if w1 == 1:
                return [(self.mkbdd(b[0]), st)]
            return [(self.bvval(b[:w1]), st)]
        if isinstance(v, Lin):
            if op == "trunc":
                if w1 == 1:
                    out = []
                    for r, s in self.divrem(v, Lin(2), w0, False, True, st):
                        out += self.icmp("ne", r, 0, w0, s)
                    return out
                return [(v, st)]
            return [(e if e.t else e.c % (1 << w1), s) for e, s in self.norm(v, w0, op == "sext", st)]
        if isinstance(v, Pack) and op == "trunc" and w1 % 8 == 0:
            return [(self.slice(v, v.n, 0, w1 // 8), st)]
        if isinstance(v, Ptr):
            return [(v, st)]
        return [(Top(op), st)]

    # -------------------------------------------------------- calls
    def do_call(self, fn, i, args, regs, st, depth):
        c = i["callee"]
        if c[0] == "v":
            t = regs[c[1]]
        else:
            t = self.const(c)
        if not (isinstance(t, Ptr) and isinstance(t.r, tuple) and t.r[0] == "fn"):
            if isinstance(t, Ptr) and t.r is None:
                self.fail("mem:null", st, "call through a null function pointer")
                return []
            if isinstance(t, Undef):
                self.fail("mem:uninit", st, "call through an uninitialised function pointer")
                return []
            if isinstance(t, Ptr):
                r = st.regs.get(t.r)
                self.fail("mem:call", st, "call through a pointer that is not a function (%s)" % rname(t.r))
                return []
            self.broken("indirect call to an unknown target: %r" % (t,))
        name = t.r[1]
        f = self.m.funcs[name]
        if f.decl:
            return self.extern(f, name, i, args, st, depth)
        return self.call_fn(f, args, st, depth + 1)

    def cstr(self, p, st):
        r = self.getreg(p, st, "read")
        out = []
        o = p.o
        while True:
            c = r.cells.get(o)
            if c is None:
                # arrays are stored byte by byte
                v = 0
            else:
                v = c[1]
            if not isinstance(v, int) or v == 0:
                break
            out.append(chr(v))
            o += 1
        return "".join(out)

    def extern(self, f, name, i, args, st, depth):
        R = lambda v=None, s=st: [Outcome("ret", v, s)]
        if name.startswith("llvm."):
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                return [Outcome("ret", None, s) for s in self.memcpy(args[0], args[1], args[2], st, "memmove" in name)]
            if name.startswith("llvm.memset"):
                return [Outcome("ret", None, s) for s in self.memset(args[0], args[1], args[2], st)]
            if name.startswith("llvm.eh.typeid.for"):
                return R(self.tid(args[0].r[1]))
            if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name.startswith("llvm.assume") or name.startswith("llvm.experimental.noalias"):
                return R()
            if name.startswith("llvm.trap") or name.startswith("llvm.ubsantrap"):
                return self.stop("trap", st)
            if name.startswith("llvm.fmuladd") or name.startswith("llvm.fma."):
                return R(self.f2(flt.add, self.f2(flt.mul, args[0], args[1]), args[2]))
            if name.startswith("llvm.minnum") or name.startswith("llvm.maxnum"):
                c = self.fcmp("olt", args[0], args[1], st)
                mn = "minnum" in name
                return [Outcome("ret", args[0] if t == mn else args[1], s) for t, s in self.decide(c, st)]
            if name.startswith("llvm.abs."):
                w = self.T[f.ret].w
                out = []
                for c, s in self.icmp("slt", args[0], 0, w, st):
                    for t, s2 in self.decide(c, s):
                        if not t:
                            out.append(Outcome("ret", args[0], s2))
                        else:
                            out += [Outcome("ret", v, s3) for v, s3 in self.binop("sub", 0, args[0], w, s2, {})]
                return out
            if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
                out = []
                w = self.T[f.ret].w
                for c, s in self.icmp(name[5] + "lt", args[0], args[1], w, st):
                    for t, s2 in self.decide(c, s):
                        out.append(Outcome("ret", args[0] if t == name.endswith("n", 5, 9) or (t and "min" in name) or (not t and "max" in name) else args[1], s2))
                return out
            if name.startswith(("llvm.ctlz.", "llvm.cttz.", "llvm.ctpop.", "llvm.bswap.", "llvm.fshl.", "llvm.fshr.", "llvm.bitreverse.")):
                return self.bitcount(name.split(".")[1], args, self.T[f.ret].w, st)
            if name in MATH:
                return self.math(MATH[name], args, st)
            if name.startswith("llvm.is.constant"):
                return R(0)
            if name.startswith("llvm.expect"):
                return R(args[0])
            self.broken("intrinsic " + name)
        if name in ("memcpy", "memmove"):
            return [Outcome("ret", args[0], s) for s in self.memcpy(args[0], args[1], args[2], st, name == "memmove")]
        if name == "memset":
            return [Outcome("ret", args[0], s) for s in self.memset(args[0], args[1], args[2], st)]
        if name in MATH:
            return self.math(MATH[name], args, st)
        if name in ("__assert_fail", "abort", "_ZSt9terminatev", "__cxa_pure_virtual", "_ZSt25__throw_bad_function_callv"):
            if name == "__assert_fail":
                return self.stop("assert", st, self.cstr(args[0], st))
            return self.stop("terminate", st, name)
        if name == "__cxa_allocate_exception":
            rid = ("excmem", next(self.exnum))
            st.regs[rid] = Region("obj", args[0] if isinstance(args[0], int) else 1024, 16, "exception", None)
            return R(Ptr(rid, 0))
        if name == "__cxa_free_exception":
            return R()
        if name == "__cxa_throw":
            ty = args[1].r[1] if isinstance(args[1], Ptr) else "?"
            st.ev = st.ev
            return [Outcome("unw", Ptr(("exc", ty), 0), st)]
        if name == "__cxa_rethrow":
            e = st.flags.get("caught")
            return [Outcome("unw", e, st)] if e is not None else self.stop("terminate", st, name)
        if name == "__cxa_begin_catch":
            st.flags = dict(st.flags)
            st.flags["caught"] = args[0]
            return R(args[0])
        if name == "__cxa_end_catch":
            return R()
        if name.startswith("_ZNSt12out_of_rangeC") or name.startswith("_ZNSt12out_of_rangeD") or name.startswith("_ZNSt9exceptionD") or name.startswith("_ZNSt17bad_function_call"):
            return R()
        if name == "_ZNSt12out_of_rangeC1EPKc":
            return R()
        h = getattr(self, "x_" + name, None)
        if h is not None:
            return h(args, st)
        if name in ("_Znwm", "_Znam", "malloc", "calloc", "realloc", "_ZdlPv", "_ZdlPvm", "free", "_Znwj"):
            self.fail("heap", st, "heap use: " + name)
            self.broken("heap use")
        self.broken("call of an unknown external function " + f.dname)

    def bitcount(self, k, args, w, st):
        v = args[0]
        if isinstance(v, (Top, Undef)):
            return [Outcome("ret", Top(k + " of an unknown"), st)]
        if isinstance(v, CondInt):
            return [r for x, s in self.flat_int(v, st) for r in self.bitcount(k, [x] + list(args[1:]), w, s)]
        if isinstance(v, Lin) and v.t:
            if k not in ("ctlz", "cttz") or k == "cttz":
                return [Outcome("ret", Top(k + " of an unknown"), st)]
            out = []
            for x, s in self.norm(v, w, False, st):
                for n in range(w + 1):  # n significant bits
                    s2 = self.refine(s, [("lin", x - (1 << n >> 1)), ("lin", -x + ((1 << n) - 1))])
                    if s2 is not None:
                        if n == 0 and args[1] == 1:
                            self.fail("ub:clz", s2, "count of leading zeros of zero")
                        out.append(Outcome("ret", w - n, s2))
            return out
        b = self.as_bv(v, w).b
        if k == "bswap":
            return [Outcome("ret", self.bvval([x for i in reversed(range(0, w, 8)) for x in b[i:i + 8]]), st)]
        if k == "bitreverse":
            return [Outcome("ret", self.bvval(list(reversed(b))), st)]
        if k == "ctpop":
            acc = 0
            for x in b:
                acc = self.bv_or_int("add", acc, self.bvval([x] + [0] * (w - 1)), w, st)
            return [Outcome("ret", acc, st)]
        if k in ("fshl", "fshr"):
            n = args[2]
            lo = self.as_bv(args[1], w)
            if not isinstance(n, int) or lo is None:
                return [Outcome("ret", Top("funnel shift"), st)]
            n %= w
            x = list(lo.b) + list(b)
            return [Outcome("ret", self.bvval(x[w - n:2 * w - n] if k == "fshl" else x[n:n + w]), st)]
        out = []
        rest = st.pc
        order = list(reversed(b)) if k == "ctlz" else list(b)
        for n in range(w + 1):
            pc = B.AND(rest, order[n]) if n < w else rest
            if pc != 0:
                s = st.clone()
                s.pc = pc
                s.sig = s.sig + ((k, n),)
                if n == w and args[1] == 1:
                    self.fail("ub:clz", s, "count of zeros of zero")
                out.append(Outcome("ret", n, s))
            if n < w:
                rest = B.AND(rest, B.NOT(order[n]))
        return out

    def stop(self, kind, st, detail=""):
        want = st.flags.get("expect")
        if want == kind:
            self.ok(st.flags.get("expect_id", kind))
            self.ends[kind] = self.ends.get(kind, 0) + 1
            return []
        self.fail("stop:" + kind, st, {"assert": "assertion can fail: " + str(detail), "terminate": "program is terminated"}.get(kind, kind))
        return []

    def math(self, n, args, st):
        if any(isinstance(a, Undef) for a in args):
            self.fail("ub:uninit", st, "uninitialised argument of " + n)
        if not all(isinstance(a, flt.F) for a in args):
            return [Outcome("ret", Top(n + " of unknown"), st)]
        if n == "fabs":
            out = []
            for t, s in self.decide(("sgn", args[0], frozenset((0, 1))), st) if self.hooks.get("splitabs") else ():
                out.append(Outcome("ret", args[0] if t else flt.neg(args[0]), s))
            if out:
                return out
            sg = flt.sign(args[0], st.facts)
            if sg <= {0, 1}:
                return [Outcome("ret", args[0], st)]
            if sg <= {0, -1}:
                return [Outcome("ret", flt.neg(args[0]), st)]
        return [Outcome("ret", flt.call(n, args), st)]

    # -------------------------------------------------------- driver language
    def x_ai_uint(self, args, st, signed=False):
        nm = self.cstr(args[0], st)
        w = self.m.ptr_bits
        lo, hi = args[1], args[2]
        if isinstance(lo, int) and isinstance(hi, int) and lo == hi:
            return [Outcome("ret", lo, st)]
        e = L.sym(nm)
        lo = toL(lo) if isinstance(lo, Lin) else Lin(sgn(lo, w) if signed else lo)
        hi = toL(hi) if isinstance(hi, Lin) else Lin(sgn(hi, w) if signed else hi)
        if not L.consistent(st.cons, [e - lo, hi - e]):
            return []
        st.add(e - lo)
        st.add(hi - e)
        return [Outcome("ret", e, st)]

    def x_ai_sint(self, args, st):
        return self.x_ai_uint(args, st, True)

    def x_ai_bits(self, args, st):
        nm = self.cstr(args[0], st)
        w = args[1]
        key = ("bits", nm, w)
        v = self.hooks.setdefault("bitsyms", {}).get(key)
        if v is None:
            v = BV([B.var("%s.%d" % (nm, i)) for i in range(w)] + [0] * (64 - w))
            self.hooks["bitsyms"][key] = v
        return [Outcome("ret", v, st)]

    def x_ai_real(self, args, st):
        return [Outcome("ret", flt.sym(self.cstr(args[0], st)), st)]

    def x_ai_reali(self, args, st):
        return [Outcome("ret", self.real_sym("%s%d" % (self.cstr(args[0], st), args[1])), st)]

    def x_ai_buf(self, args, st, info=None):
        nm = self.cstr(args[0], st)
        rid = ("buf", nm)
        r = Region("buf", args[1] if isinstance(args[1], int) else args[1], args[2], nm, fill="sym")
        r.info = info
        st.regs[rid] = r
        return [Outcome("ret", Ptr(rid, 0), st)]

    def x_ai_bytebuf(self, args, st):
        return self.x_ai_buf(args + [1], st, "bits")

    def x_ai_assume(self, args, st):
        c = self.tocond(args[0])
        return [Outcome("ret", None, s) for t, s in self.decide(c, st) if t]

    def tocond(self, v):
        if isinstance(v, CondInt):
            return v.c
        if isinstance(v, BV):
            n = 0
            for b in v.b:
                n = B.OR(n, b)
            return self.mkbdd(n)
        if isinstance(v, (Top, Undef)):
            return ("top", "unknown condition %r" % (v,))
        if isinstance(v, int):
            return int(v != 0)
        return v

    def x_ai_prove(self, args, st):
        ident = self.cstr(args[1], st)
        c = self.tocond(args[0])
        return [Outcome("ret", None, s) for s in self.prove(c, st, ident, "does not hold: " + ident)]

    def x_ai_reach(self, args, st):
        """this point must be reached by the analysis (no vacuous proofs)"""
        ident = self.cstr(args[0], st)
        self.ends["reach:" + ident] = self.ends.get("reach:" + ident, 0) + 1
        return [Outcome("ret", None, st)]

    def x_ai_event(self, args, st):
        kind = self.cstr(args[0], st)
        p, n = args[1], args[2]
        self.ev_add(st, kind, p, n, None, "ev")
        return [Outcome("ret", None, st)]

    def ev_add(self, st, kind, p, n, ex, which):
        if p.r is None:
            e = Event(kind, None, Lin(0), Lin(0) + n, ex, self.where())
        else:
            if which == "ev":
                r = self.getreg(p, st, "use")
                self.bounds(p, n, st, "object " + kind)
            e = Event(kind, p.r, toL(p.o), toL(p.o) + n, ex, self.where())
        setattr(st, which, self.push_event(st, getattr(st, which), e))

    def x_ai_event2(self, args, st):
        self.ev_add(st, self.cstr(args[0], st), args[1], args[2], ("ptr", args[3]), "ev")
        return [Outcome("ret", None, st)]

    def x_ai_eventv(self, args, st):
        kind = self.cstr(args[0], st)
        st.ev = st.ev + (Event(kind, None, None, None, ("v", args[1]), self.where()),)
        return [Outcome("ret", None, st)]

    def x_ai_expect(self, args, st):
        self.ev_add(st, self.cstr(args[0], st), args[1], args[2], None, "exp")
        return [Outcome("ret", None, st)]

    def x_ai_expect2(self, args, st):
        self.ev_add(st, self.cstr(args[0], st), args[1], args[2], ("ptr", args[3]), "exp")
        return [Outcome("ret", None, st)]

    def x_ai_expectv(self, args, st):
        st.exp = st.exp + (Event(self.cstr(args[0], st), None, None, None, ("v", args[1]), self.where()),)
        return [Outcome("ret", None, st)]

    def x_ai_expect_copy(self, args, st):
        d, s, n = args
        lo = toL(d.o)
        e = Event("W", d.r, lo, lo + n, ("copy", s.r, toL(s.o) - lo), self.where())
        st.exp = self.push_event(st, st.exp, e)
        return [Outcome("ret", None, st)]

    def x_ai_expect_store(self, args, st):
        d, v, n = args
        t = self.int_type(n)
        if t is None:
            self.broken("no integer type of that size in the driver")
        out = []
        for x, s in self.load(v, t, st):
            lo = toL(d.o)
            if isinstance(x, Pack) and len(x.c) == 1:
                x = x.c[0][2]
            s.exp = self.push_event(s, s.exp, Event("W", d.r, lo, lo + n, ("val", x), self.where()))
            out.append(Outcome("ret", None, s))
        return out

    def x_ai_log_reset(self, args, st):
        st.ev = ()
        st.exp = ()
        return [Outcome("ret", None, st)]

    def x_ai_log_check(self, args, st):
        return [Outcome("ret", None, s) for s in self.compare_logs(st, self.cstr(args[0], st), bool(args[1]))]

    def x_ai_log_filter(self, args, st):
        """keep only events of the given kind"""
        k = self.cstr(args[0], st)
        st.ev = tuple(e for e in st.ev if e.kind == k)
        return [Outcome("ret", None, st)]

    def x_ai_same(self, args, st):
        a, b, n, idp = args
        ident = self.cstr(idp, st)
        st, ra = self.bounds(a, n, st, "read")
        st, rb = self.bounds(b, n, st, "read")
        states = [st]
        keys = {}
        for r, p, w in ((ra, a, 0), (rb, b, 1)):
            for k in self.overlap(r.cells, p.o, n):
                keys.setdefault((k - p.o, r.cells[k][0]), [None, None])[w] = r.cells[k][1]
        for (o, sz), (x, y) in sorted(keys.items(), key=lambda z: z[0]):
            nxt = []
            for s in states:
                if x is None or y is None:
                    # layout of stores differs: compare bytewise when possible
                    t = self.int_type(sz)
                    x2 = x if x is not None else (self.cell_read(ra, a.r, a.o + o, sz, t, s, "") if t else None)
                    y2 = y if y is not None else (self.cell_read(rb, b.r, b.o + o, sz, t, s, "") if t else None)
                else:
                    x2, y2 = x, y
                if isinstance(x2, Undef) or isinstance(y2, Undef):
                    nxt.append(s)
                    continue
                r = self.veq(x2, y2, s) if x2 is not None and y2 is not None else None
                txt = "states differ at byte %d: %r, expected %r (%s)" % (o, x2, y2, ident)
                if r is True:
                    self.ok(ident)
                    nxt.append(s)
                elif r is None:
                    if self.own(ident):
                        self.undec.append(Report(ident, self.where(), txt))
                    nxt.append(s)
                elif r is False:
                    self.fail(ident, s, txt)
                    if not self.own(ident):
                        nxt.append(s)
                else:
                    nxt += self.prove(r, s, ident, txt)
            states = nxt
        return [Outcome("ret", None, s) for s in states]

    def x_ai_maythrow(self, args, st):
        s = st.clone()
        s.sig = s.sig + (("throw", 1),)
        st.sig = st.sig + (("throw", 0),)
        return [Outcome("ret", None, st), Outcome("unw", Ptr(("exc", "user"), 0), s)]

    def x_ai_throw(self, args, st):
        return [Outcome("unw", Ptr(("exc", "user"), 0), st)]

    def x_ai_expect_stop(self, args, st):
        st.flags = dict(st.flags)
        st.flags["expect"] = self.cstr(args[0], st)
        st.flags["expect_id"] = self.cstr(args[1], st)
        return [Outcome("ret", None, st)]

    def x_ai_merge(self, args, st):
        st.flags = dict(st.flags)
        st.flags["merge"] = bool(args[0])
        return [Outcome("ret", None, st)]

    def x_ai_choice(self, args, st):
        out = []
        for k in range(args[0]):
            s = st.clone()
            s.sig = s.sig + (("choice", k),)
            out.append(Outcome("ret", k, s))
        return out

    def x_ai_out(self, args, st):
        nm = self.cstr(args[0], st)
        st.outs = dict(st.outs)
        st.outs[(nm, args[1])] = args[2]
        return [Outcome("ret", None, st)]

    def x_ai_outi(self, args, st):
        return self.x_ai_out(args, st)

    def x_ai_req(self, args, st):
        """real-valued identity"""
        ident = self.cstr(args[2], st)
        a, b = args[0], args[1]
        if not isinstance(a, flt.F) or not isinstance(b, flt.F):
            if self.own(ident):
                self.undec.append(Report(ident, self.where(), "not a real expression: %r vs %r" % (a, b)))
            return [Outcome("ret", None, st)]
        if flt.same(a, b):
            self.ok(ident)
        else:
            self.fail(ident, st, "%s: %s  differs from  %s" % (ident, flt.show(a, 5), flt.show(b, 5)))
        return [Outcome("ret", None, st)]

    def x_ai_nonzero(self, args, st):
        return [Outcome("ret", None, s) for t, s in self.decide(("sgn", args[0], frozenset((-1, 1))), st, note=False) if t]

    def x_ai_positive(self, args, st):
        return [Outcome("ret", None, s) for t, s in self.decide(("sgn", args[0], frozenset((1,))), st, note=False) if t]

    def x_ai_watch(self, args, st):
        """record every write to this object in the ledger"""
        p = args[0]
        r = st.w(p.r)
        r.info = "watch" if args[1] else None
        return [Outcome("ret", None, st)]

    def x_ai_freeze(self, args, st):
        """any write to this object is a violation from now on"""
        if isinstance(args[0].r, tuple) and args[0].r[0] == "g" and args[0].r not in st.regs:
            self.mkglobal(args[0].r, st)
        r = st.w(args[0].r)
        r.ro = bool(args[1])
        return [Outcome("ret", None, st)]

    def x_ai_precision(self, args, st):
        """from now on nothing may be rounded to a type with fewer bits in its mantissa"""
        if not isinstance(args[0], int):
            self.broken("ai_precision needs a number")
        ident = self.cstr(args[1], st)
        self.precision = (args[0], ident) if args[0] else None
        self.proved[ident] = self.proved.get(ident, 0) + 1
        return [Outcome("ret", None, st)]

    def representable(self, a, bits):
        q = getattr(a, "q", None)
        if q is None:
            return False
        q = Fraction(q)
        n = abs(q.numerator)
        while n and n % 2 == 0:
            n //= 2
        d = q.denominator
        return d & (d - 1) == 0 and n.bit_length() <= bits

    def x_ai_within(self, args, st):
        """does [p, p+n) lie within the object [q, q+m)?"""
        p, n, q, m = args
        if not isinstance(p, Ptr) or not isinstance(q, Ptr):
            self.broken("ai_within of an unknown pointer")
        if p.r != q.r:
            return [Outcome("ret", 0, st)]
        out = []
        for t, s in self.decide(("lin", toL(p.o) - toL(q.o)), st):
            if not t:
                out.append(Outcome("ret", 0, s))
                continue
            for t2, s2 in self.decide(("lin", toL(q.o) + m - toL(p.o) - n), s):
                out.append(Outcome("ret", int(t2), s2))
        return out

    def x_ai_aligned(self, args, st):
        p, a = args
        if not isinstance(p, Ptr) or p.r is None:
            return [Outcome("ret", 0, st)]
        al = self.region_align(p, st)
        return [Outcome("ret", int(al is not None and al % a == 0), st)]

    def x_ai_sym_content(self, args, st):
        """forget an object's content: it becomes arbitrary"""
        p, nm = args[0], self.cstr(args[1], st)
        r = st.w(p.r)
        r.cells = {}
        r.fill = "sym"
        r.name = nm
        return [Outcome("ret", None, st)]

    def x_ai_define(self, args, st):
        """relation f(a) = v (ai_define) or f(a, b) = v (ai_define2), assumed from now on"""
        nm = self.cstr(args[0], st)
        if not all(isinstance(a, flt.F) for a in args[1:]):
            self.broken("ai_define of an unknown value")
        flt.define(nm, tuple(args[1:-1]), args[-1])
        return [Outcome("ret", None, st)]

    x_ai_define2 = x_ai_define

    def real_cells(self, p, n, st):
        reg = st.regs[p.r]
        lo = p.o if not isinstance(p.o, Lin) else p.o.c
        return reg, lo, {o - lo: v for o, (z, v) in reg.cells.items() if lo <= o < lo + n}

    def x_ai_havoc_reals(self, args, st):
        """every real in [p, p+n) becomes an arbitrary one; returns how many"""
        p, n, nm = args[0], args[1], self.cstr(args[2], st)
        reg, lo, cells = self.real_cells(p, n, st)
        r = st.w(p.r)
        k = 0
        for o, v in sorted(cells.items()):
            if isinstance(v, flt.F):
                r.cells[lo + o] = (r.cells[lo + o][0], self.real_sym("%s@%d" % (nm, o)))
                k += 1
        return [Outcome("ret", k, st)]

    def x_ai_sum_reals(self, args, st):
        """reals of [d, d+n) := reals of a + reals of b"""
        d, a, b, n = args
        _, lo, cd = self.real_cells(d, n, st)
        _, _, ca = self.real_cells(a, n, st)
        _, _, cb = self.real_cells(b, n, st)
        r = st.w(d.r)
        for o, v in cd.items():
            if isinstance(v, flt.F) and isinstance(ca.get(o), flt.F) and isinstance(cb.get(o), flt.F):
                r.cells[lo + o] = (r.cells[lo + o][0], flt.add(ca[o], cb[o]))
        return [Outcome("ret", None, st)]

    def x_ai_is_sum(self, args, st):
        """are the reals of d the sums of those of a and b, and everything
        else in d, a and b as it is in the snapshot s?"""
        d, a, b, s, n = args
        cd, ca, cb, cs = (self.real_cells(x, n, st)[2] for x in (d, a, b, s))
        ok = cd.keys() == ca.keys() == cb.keys() == cs.keys()
        for o, v in cd.items():
            if not ok:
                break
            if isinstance(v, flt.F):
                ok = isinstance(ca[o], flt.F) and isinstance(cb[o], flt.F) and isinstance(cs[o], flt.F) and flt.same(v, flt.add(ca[o], cb[o]))
            else:
                ok = v == ca[o] == cb[o] == cs[o]
        return [Outcome("ret", int(ok), st)]

    def x_ai_trace(self, args, st):
        sys.stderr.write("TRACE %s: %s | cons=%s ev=%s\n" % (self.cstr(args[0], st), args[1:], st.cons, st.ev))
        return [Outcome("ret", None, st)]

    # -------------------------------------------------------- entry
    def run_driver(self, name):
        fn = self.m.funcs[name]
        self.driver = name
        flt.DEFS.clear()
        self.stack = []
        st = State()
        outs = self.call_fn(fn, [], st, 0)
        fin = []
        for o in outs:
            if o.kind == "unw":
                self.stack = [(fn, None)]
                self.fail("stop:exception", o.st, "exception %s leaves the driver" % (o.val,))
            else:
                fin.append(o.st)
        self.final = fin
        return fin
