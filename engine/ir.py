"""Front end: compile a driver against the current /repo headers to LLVM IR
(clang, no optimisation) and load it."""
import json
import os
import re
import subprocess
import tempfile
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = os.path.join(REPO, "include")
STUBS = os.path.join(VERIF, "stubs")


class AnalysisBroken(Exception):
    """the check cannot give an answer (never a verdict)"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


CRASH = re.compile(r"frontend command failed|PLEASE submit|internal compiler error|Killed signal|unable to execute command|cannot allocate memory|out of memory|No space left|Segmentation fault", re.I)


def compiler(cmd, crash_is_answer=False):
    """run a compiler; one that crashes or is killed (memory, disk) says nothing about the
    program, so it is tried again, and in the end there is no answer"""
    for n in range(3):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0 or (r.returncode > 0 and not CRASH.search(r.stdout)):
            return r
        time.sleep(2 + 5 * n)
    if crash_is_answer:
        return r
    raise AnalysisBroken("compiler crashed: %s: %s" % (" ".join(cmd)[-300:], r.stdout[-600:]))


def irdump_path():
    """the IR reader, rebuilt when its source is newer"""
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "irdump")
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    flags = run(["llvm-config", "--cxxflags"]).stdout.split()
    libs = run(["llvm-config", "--ldflags", "--libs", "core", "irreader", "demangle", "support"]).stdout.split()
    tmp = exe + ".%d" % os.getpid()
    r = run(["clang++", "-O1"] + flags + ["-fexceptions", src, "-o", tmp] + libs)
    if r.returncode:
        raise AnalysisBroken("cannot build irdump: " + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


class CompileError(Exception):
    pass


BASE = ["-std=c++17", "-O0", "-ffp-contract=off", "-gline-tables-only", "-Xclang", "-disable-O0-optnone",
        "-fno-discard-value-names", "-w"]


def compile_ir(src, flags=(), out=None, gcc_branch=True):
    """clang front end -> textual IR.  gcc_branch: take the same preprocessor
    branch of the constexpr math layer as the real (GCC) build does."""
    cmd = ["clang++"] + BASE + (["-U__clang__"] if gcc_branch else []) + ["-I" + INC, "-I" + os.path.join(VERIF, "drivers")]
    cmd += list(flags) + ["-S", "-emit-llvm", src, "-o", out]
    r = compiler(cmd)
    if r.returncode:
        raise CompileError(r.stdout[:6000])
    return out


def load(src, flags=(), gcc_branch=True):
    exe = irdump_path()
    with tempfile.TemporaryDirectory(prefix="verif-ir") as d:
        ll = compile_ir(src, flags, os.path.join(d, "x.ll"), gcc_branch)
        r = subprocess.run([exe, ll], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise AnalysisBroken("irdump failed: " + r.stderr.decode()[-1000:])
    return Module(json.loads(r.stdout))


def bits_to_fraction(hexs, ty):
    v = int(hexs, 16)
    if ty == "double":
        e, m, s, bias, mb = (v >> 52) & 0x7FF, v & ((1 << 52) - 1), v >> 63, 1023, 52
        mx = 0x7FF
    elif ty == "float":
        e, m, s, bias, mb = (v >> 23) & 0xFF, v & ((1 << 23) - 1), v >> 31, 127, 23
        mx = 0xFF
    elif ty == "x86_fp80":
        e, m, s = (v >> 64) & 0x7FFF, v & ((1 << 64) - 1), v >> 79
        if e == 0x7FFF:
            return None
        f = Fraction(m) * Fraction(2) ** (max(e, 1) - 16383 - 63)
        return -f if s else f
    elif ty == "half":
        e, m, s, bias, mb = (v >> 10) & 0x1F, v & 0x3FF, v >> 15, 15, 10
        mx = 0x1F
    else:
        return None
    if e == mx:
        return None
    if e:
        m |= 1 << mb
    else:
        e = 1
    f = Fraction(m) * Fraction(2) ** (e - bias - mb)
    return -f if s else f


class Type:
    __slots__ = ("s", "k", "size", "store", "align", "w", "elems", "n", "et")


class Func:
    pass


class Module:
    def __init__(self, j):
        self.ptr_bits = j["ptr_bits"]
        self.types = []
        for t in j["types"]:
            o = Type()
            o.s, o.k = t["s"], t["k"]
            o.size, o.store, o.align = t.get("size", 0), t.get("store", 0), t.get("align", 1)
            o.w = t.get("w", 0)
            o.elems = t.get("e")
            o.n = t.get("n", 0)
            o.et = t.get("et")
            self.types.append(o)
        self.globals = {g["name"]: g for g in j["globals"]}
        self.funcs = {}
        for f in j["functions"]:
            o = Func()
            o.name, o.dname = f["name"], f["dname"]
            o.decl = f["decl"]
            o.nounwind, o.noreturn = f["nounwind"], f["noreturn"]
            o.params, o.ret, o.vararg = f["params"], f["ret"], f["vararg"]
            o.blocks = f["blocks"]
            o.file, o.line = f.get("file", ""), f.get("line", 0)
            o.linkage = f["linkage"]
            o.intrinsic = f["intrinsic"]
            o.cfg = None
            self.funcs[o.name] = o

    def rel(self, path):
        return os.path.relpath(path, REPO) if path.startswith(REPO) else path
