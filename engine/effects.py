"""Whole-module analyses over the intermediate code: call graph with
conservative indirect calls, closures, and per-instruction effects.  Nothing is
interpreted here: every instruction of every reachable function counts, on
whatever path it lies."""
import os

from . import ir


def const_globals(v, out):
    """names of globals mentioned in a constant"""
    if isinstance(v, list):
        if len(v) >= 2 and v[0] == "g" and isinstance(v[1], str):
            out.add(v[1])
        else:
            for x in v:
                const_globals(x, out)


class Graph:
    def __init__(self, mod):
        self.mod = mod
        self.taken = set()
        for g in mod.globals.values():
            s = set()
            const_globals(g.get("init") or [], s)
            self.taken |= {x for x in s if x in mod.funcs}
        for f in mod.funcs.values():
            for b in f.blocks or ():
                for i in b:
                    s = set()
                    const_globals(i["o"], s)
                    for ph in i.get("in", ()):
                        const_globals(ph, s)
                    self.taken |= {x for x in s if x in mod.funcs}
        self.by_sig = {}
        for n in self.taken:
            f = mod.funcs[n]
            if not f.intrinsic:
                self.by_sig.setdefault(self.sig(f.ret, [self.ptype(p) for p in f.params]), []).append(n)
        self._callees = {}

    @staticmethod
    def ptype(p):
        return p[1]

    def sig(self, ret, params):
        T = self.mod.types
        return (T[ret].s, tuple(T[p].s for p in params))

    def insts(self, f):
        for b in f.blocks or ():
            for i in b:
                yield i

    def calls(self, name):
        """(instruction, [targets], indirect?)"""
        if name in self._callees:
            return self._callees[name]
        out = []
        f = self.mod.funcs[name]
        for i in self.insts(f):
            if "callee" not in i:
                continue
            c = i["callee"]
            if c[0] == "g":
                out.append((i, [c[1]], False))
            elif c[0] == "asm":
                out.append((i, [], False))
            else:
                n = len(i["o"])
                t = self.sig(i["t"], i["ot"][:n])
                out.append((i, list(self.by_sig.get(t, ())), True))
        self._callees[name] = out
        return out

    def reach(self, roots, stop=lambda n: False):
        """name -> (caller, instruction) of one path"""
        par = {}
        todo = []
        for r in roots:
            par[r] = None
            todo.append(r)
        while todo:
            n = todo.pop()
            if stop(n) or n not in self.mod.funcs:
                continue
            for i, ts, _ in self.calls(n):
                for t in ts:
                    if t not in par:
                        par[t] = (n, i)
                        todo.append(t)
        return par

    def path(self, par, n):
        out = []
        while n is not None:
            f = self.mod.funcs.get(n)
            p = par.get(n)
            out.append((f.dname if f else n)[:140])
            n = p[0] if p else None
        return " <- ".join(out[:8])

    def origin(self, n):
        f = self.mod.funcs.get(n)
        if f is None or f.decl:
            return "external"
        p = os.path.abspath(f.file) if f.file else ""
        if p.startswith(ir.REPO + "/"):
            return "library"
        if p.startswith(ir.VERIF):
            return "user"
        return "std"

    def where(self, n, i):
        f = self.mod.funcs.get(n)
        fl = i.get("fl") or (f.file if f else "") or "?"
        return "%s:%s (%s)" % (self.mod.rel(os.path.abspath(fl)), i.get("l", "?"), (f.dname if f else n)[:120])
