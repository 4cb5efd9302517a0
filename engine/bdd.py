"""Reduced ordered binary decision diagrams (the bit-level abstract domain)."""


class BDD:
    def __init__(self):
        self.nodes = [(1 << 30, 0, 0), (1 << 30, 1, 1)]
        self.uniq = {}
        self.names = []
        self.ite_memo = {}

    def var(self, name):
        self.names.append(name)
        return self.mk(len(self.names) - 1, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = r
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.ite_memo.get(k)
        if r is not None:
            return r
        n = self.nodes
        v = min(n[f][0], n[g][0], n[h][0])

        def cof(x, b):
            return n[x][1 + b] if n[x][0] == v else x

        lo = self.ite(cof(f, 0), cof(g, 0), cof(h, 0))
        hi = self.ite(cof(f, 1), cof(g, 1), cof(h, 1))
        r = self.mk(v, lo, hi)
        self.ite_memo[k] = r
        return r

    def AND(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def constrain_eq(self, pc, a, b):
        """a == b wherever pc"""
        return self.AND(pc, self.XOR(a, b)) == 0

    def simplify(self, f, pc):
        """constant under pc?  returns 0/1 if so, else f"""
        if f in (0, 1):
            return f
        if self.AND(pc, f) == 0:
            return 0
        if self.AND(pc, self.NOT(f)) == 0:
            return 1
        return f

    def pick(self, f):
        """a satisfying assignment {name: bit}"""
        env = {}
        while f > 1:
            v, lo, hi = self.nodes[f]
            if lo != 0:
                env[self.names[v]] = 0
                f = lo
            else:
                env[self.names[v]] = 1
                f = hi
        return env


B = BDD()
