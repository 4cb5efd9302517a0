"""Compile-time witnesses: programs whose acceptance or rejection by the type
system decides an obligation.  Nothing is executed.  A rejected program always
has an accepted twin (the same source without -DBAD)."""
import concurrent.futures as cf
import os
import re
import tempfile

from . import ir

GXX, CLANG = "g++", "clang++"
CXX14 = r"non-constant|constant expression|constexpr|C\+\+14|c\+\+14"
STDS = ("11", "14", "17", "20")


class Prog:
    def __init__(self, ident, name, code, bad=False, stds=STDS, compilers=(GXX, CLANG), flags=(), where="", header=None):
        """bad: with -DBAD the program must be rejected, without it accepted"""
        self.ident, self.name, self.code, self.bad, self.stds, self.compilers = ident, name, code, bad, stds, compilers
        self.flags, self.where, self.header = tuple(flags), where or name, header


def compile_text(code, cxx, std, flags, d, n):
    p = os.path.join(d, "w%d.cpp" % n)
    with open(p, "w") as f:
        f.write(code)
    cmd = [cxx, "-std=c++" + std, "-I" + os.path.join(ir.REPO, "include")] + list(flags)
    if cxx.startswith("clang"):
        cmd += ["-fsyntax-only"]
    else:
        cmd += ["-S", "-O0", "-o", "/dev/null"]
    r = ir.compiler(cmd + [p])
    return r.returncode, r.stdout


def run(check, progs, workers=8):
    with tempfile.TemporaryDirectory() as d:
        tasks = []
        for pr in progs:
            for c in pr.compilers:
                for s in pr.stds:
                    tasks.append((pr, c, s, False))
                    if pr.bad:
                        tasks.append((pr, c, s, True))

        def one(a):
            n, (pr, c, s, bad) = a
            return compile_text(pr.code, c, s, pr.flags + (("-DBAD",) if bad else ()), d, n)

        with cf.ThreadPoolExecutor(max_workers=workers) as ex:
            res = list(ex.map(one, list(enumerate(tasks))))
        # a function that is a constant expression from C++14 on only: whether the library
        # still does with C++11 is C01's business
        later = {}
        if check.pid != "C01":
            for n, ((pr, c, s, bad), (rc, out)) in enumerate(zip(tasks, res)):
                if rc and not bad and s == "11" and re.search(CXX14, out) and not re.search(r"static assertion failed|static_assert failed", out):
                    later[n] = compile_text(pr.code, c, "14", pr.flags, d, n)
    for n, ((pr, c, s, bad), (rc, out)) in enumerate(zip(tasks, res)):
        check.count("programs_compiled")
        if n in later and later[n][0] == 0:
            check.count("not_a_constant_expression_in_c++11")
            check.ok(pr.ident, max(1, pr.code.count("static_assert")))
            continue
        if bad:
            check.count("must_be_rejected")
            if rc == 0:
                check.violation(pr.ident, pr.where, "%s: accepted by %s -std=c++%s %s although it must not compile" % (pr.name, c, s, " ".join(pr.flags)), pr.code[-1500:])
            elif re.search(r"internal compiler error|Segmentation fault", out):
                check.broken.append("compiler crash on %s" % pr.name)
            else:
                check.ok(pr.ident)
        else:
            check.count("must_be_accepted")
            if rc:
                check.violation(pr.ident, locate(out) or pr.where, "%s: rejected by %s -std=c++%s %s: %s" % (pr.name, c, s, " ".join(pr.flags), errors(out)), pr.code[-1500:])
            else:
                check.ok(pr.ident, max(1, pr.code.count("static_assert")))
    for pr in progs:
        check.samples.append(dict(program=pr.name, rule=pr.ident, rejected=pr.bad, standards=list(pr.stds)))


def errors(out):
    e = [l for l in out.splitlines() if "error" in l]
    return " | ".join(e[:3])[:700] or out[:400]


def locate(out):
    for l in out.splitlines():
        m = re.search(r"((?:include/embedded)/\S+?:\d+)", l)
        if m:
            return m.group(1)
    return None
