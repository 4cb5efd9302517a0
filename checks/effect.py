"""C02 (no allocation), C03 (exceptions), C04 (no shared state): closures of
the whole public interface over the call graph of the intermediate code, plus
queries over the syntax trees of all templates (instantiated or not)"""
import concurrent.futures as cf
import os
import re
import subprocess

from engine import effects, ir
from engine.check import Job
from engine.ir import INC, REPO, STUBS, VERIF

SRC = os.path.join(VERIF, "drivers", "all.cpp")
THIRD = "-I" + VERIF + "/stubs3p"
NOALIAS = ("-Xclang", "-mno-constructor-aliases")
# (label, flags, take the branch for GCC's own math functions)
CONFS = [
    ("C++14, std math", ("-std=c++14",), True),
    ("C++11, gcem math", ("-std=c++11", "-I" + STUBS), False),
    ("C++20, gcem math, NDEBUG", ("-std=c++20", "-DNDEBUG", "-I" + STUBS), False),
    ("C++11, std math, no exceptions, no RTTI", ("-std=c++11", "-fno-exceptions", "-fno-rtti"), True),
    ("C++17, gcem math, no exceptions, no RTTI", ("-std=c++17", "-fno-exceptions", "-fno-rtti", "-I" + STUBS), False),
]
MORE = [
    ("C++11, std math, NDEBUG", ("-std=c++11", "-DNDEBUG"), True),
    ("C++14, gcem math", ("-std=c++14", "-I" + STUBS), False),
    ("C++17, gcem math", ("-std=c++17", "-I" + STUBS), False),
    ("C++20, gcem math", ("-std=c++20", "-I" + STUBS), False),
    ("C++20, gcem math, no exceptions, no RTTI, NDEBUG", ("-std=c++20", "-fno-exceptions", "-fno-rtti", "-DNDEBUG", "-I" + STUBS), False),
    ("C++14, std math, no exceptions", ("-std=c++14", "-fno-exceptions"), True),
    ("C++17, gcem math, no RTTI", ("-std=c++17", "-fno-rtti", "-I" + STUBS), False),
]
MATH = re.compile(r"^(a?(cos|sin|tan)h?|atan2|ceil|copysign|erfc?|exp2?|expm1|floor|fmod|[lt]gamma|log|log10|log1p|log2|pow|round|sqrt|trunc|cbrt|hypot|fabs|fmin|fmax|nearbyint|rint|remainder|modf|frexp|ldexp|scalbn|l?lround|l?lrint|logb|ilogb|fdim|fma|nan|nextafter)[fl]?$")
PLAIN = re.compile(r"^(__assert_fail|__assert|abort|mem(cpy|move|set|cmp|chr)|strlen|strcmp|strncpy|strncmp|strcpy|_ZSt9terminatev|_ZSt13__throw|__clang_call_terminate|__gxx_personality_v0|_ZSt21__glibcxx_assert_fail.*|_Unwind_Resume|__fpclassify[fl]?|__signbit[fl]?|__isnan[fl]?|__isinf[fl]?|__finite[fl]?)")
# exception machinery; the exception object may be allocated
EXC = re.compile(r"^(__cxa_(allocate|free)_exception|__cxa_throw|__cxa_(begin|end)_catch|__cxa_rethrow|__cxa_get_exception_ptr|_ZNSt12out_of_rangeC[12]EPKc|_ZNSt12out_of_rangeC[12]E(RK|O)S_|_ZNSt12out_of_rangeD[012]Ev|_ZNSt17bad_function_call[CD][012].*|_ZNSt9exceptionD[012]Ev|_ZNSt11logic_error[CD][012].*|_ZNKSt.*4whatEv)$")
THROWS = {"_ZTISt12out_of_range": (re.compile(r"^use_cba_"), "at()"),
          "_ZTISt17bad_function_call": (re.compile(r"^use_fn_"), "calling a function wrapper")}


def load(job):
    label, fl, gcc = job
    try:
        return ir.load(SRC, list(fl) + list(NOALIAS) + [THIRD], gcc)
    except ir.CompileError as e:
        return "%s: %s" % (label, str(e)[:1500])


def graph(m):
    g = effects.Graph(m)
    roots = sorted(n for n in m.funcs if n.startswith("use_") and not m.funcs[n].decl)
    return g, roots, g.reach(roots, stop=lambda n: user(m, n))


def user(m, n):
    f = m.funcs.get(n)
    return bool(f) and re.match(r"^_ZNK?4user|^_ZN?4user", n) is not None and (f.decl or "user::" in f.dname.split("(")[0])


def lib_functions(g):
    """functions the library is responsible for: its own, and std templates instantiated for it"""
    for n, f in g.mod.funcs.items():
        if not f.decl and g.origin(n) in ("library", "std"):
            yield n, f


def run(c, per_module):
    confs = CONFS + (MORE if c.thorough else [])
    with cf.ProcessPoolExecutor(max_workers=4) as ex:
        futs = [(k, ex.submit(work, k, c.pid)) for k in confs]
        for k, f in futs:
            r = f.result()
            for kind, args in r:
                if kind == "ok":
                    c.ok(*args)
                elif kind == "violation":
                    ident, where, text = args
                    c.violation(ident, where, k[0] + ": " + text)
                elif kind == "broken":
                    c.broken.append(args[0])
                elif kind == "count":
                    c.count(*args)
                elif kind == "fns":
                    c.fns |= set(args[0])
    c.notes.append("configurations: " + "; ".join(k[0] for k in confs))


class Out:
    def __init__(self):
        self.r = []

    def ok(self, i, n=1):
        self.r.append(("ok", (i, n)))

    def bad(self, i, where, text):
        if sum(1 for k, _ in self.r if k == "violation") < 40:
            self.r.append(("violation", (i, where, text)))

    def count(self, k, n):
        self.r.append(("count", (k, n)))


def work(conf, pid):
    o = Out()
    m = load(conf)
    if isinstance(m, str):
        o.bad(pid + ":interface", "whole interface", m)
        return o.r
    g, roots, par = graph(m)
    if len(roots) < 90:
        o.r.append(("broken", ("only %d roots" % len(roots),)))
    o.count("modules", 1)
    o.count("roots", len(roots))
    o.count("functions_in_closure", len(par))
    o.count("call_sites", sum(len(g.calls(n)) for n in par if n in m.funcs and not user(m, n)))
    fns = [m.funcs[n].dname[:140] for n in par if g.origin(n) == "library"]
    o.r.append(("fns", (fns,)))
    {"C02": ir02, "C03": ir03, "C04": ir04}[pid](o, m, g, roots, par, "-fno-exceptions" in conf[1], "-fno-rtti" in conf[1])
    return o.r


def site(g, par, n):
    """the nearest library construct on the path to n"""
    p = n
    while par.get(p) is not None:
        q, i = par[p]
        if g.origin(q) == "library":
            return g.where(q, i)
        p = q
    return n


# ------------------------------------------------------------------- C02
def ir02(o, m, g, roots, par, noexc, nortti):
    for n in sorted(par):
        f = m.funcs.get(n)
        if user(m, n) or (f and (f.intrinsic or not f.decl)):
            o.ok("C02:closure")
            continue
        if MATH.match(n) or PLAIN.match(n) or EXC.match(n):
            o.ok("C02:external")
            continue
        o.bad("C02:external", site(g, par, n), "calls %s: %s" % (f.dname if f else n, g.path(par, n)))
    # calls through pointers: some target must be known, or it is a call of the user's function pointer
    for n in par:
        if n not in m.funcs or user(m, n):
            continue
        for i, ts, ind in g.calls(n):
            if i["callee"][0] == "asm":
                o.bad("C02:closure", g.where(n, i), "inline assembly")
            elif ind:
                o.ok("C02:indirect call sites")


# ------------------------------------------------------------------- C03
def ir03(o, m, g, roots, par, noexc, nortti):
    if noexc:
        for n in sorted(par):
            if re.match(r"^(__cxa_(allocate|free)_exception|__cxa_throw|__cxa_rethrow|__cxa_(begin|end)_catch|__gxx_personality|_Unwind|_ZSt\d+__throw_)", n):
                o.bad("C03:needs no exception support", site(g, par, n), "reaches %s: %s" % (n, g.path(par, n)))
            else:
                o.ok("C03:needs no exception support")
        if "__gxx_personality_v0" in m.funcs:
            o.bad("C03:needs no exception support", "whole interface", "some function has an exception personality")
    if nortti:
        for n in par:
            if n in ("__dynamic_cast", "__cxa_bad_cast", "__cxa_bad_typeid"):
                o.bad("C03:needs no RTTI", site(g, par, n), "reaches " + n)
        for n in m.globals:
            # an exception that is thrown brings its own type information along
            if (n.startswith("_ZTI") or n.startswith("_ZTS")) and (noexc or not re.search(r"^_ZT[IS](S?t|N?St)?\d*(S?t|N?St)?\d+(out_of_range|bad_function_call|logic_error|exception)E?$", n)):
                o.bad("C03:needs no RTTI", n, "type information is needed")
        o.ok("C03:needs no RTTI", len(par) + len(m.globals))
    if noexc:
        return
    by_root = {}
    for r in roots:
        for n in g.reach([r], stop=lambda n: user(m, n)):
            by_root.setdefault(n, set()).add(r)
    seen = set()
    for n in sorted(par):
        f = m.funcs.get(n)
        if n == "__cxa_throw" or EXC.match(n):
            continue
        if re.match(r"^_ZSt\d+__throw_|^_ZNSt13runtime_error|^_ZSt17rethrow_exception", n) and (not f or f.decl):
            o.bad("C03:throws", site(g, par, n), "may throw through %s: %s" % (f.dname if f else n, g.path(par, n)))
            continue
        if not f or f.decl or user(m, n):
            continue
        for i in g.insts(f):
            c = i.get("callee")
            if not c or c[0] != "g":
                continue
            if c[1] == "__cxa_throw":
                s = set()
                effects.const_globals(i["o"][1:2], s)
                t = next(iter(s), "?")
                if t not in THROWS:
                    o.bad("C03:throws", g.where(n, i), "throws %s: %s" % (t, g.path(par, n)))
                    continue
                pat, what = THROWS[t]
                wrong = sorted(r for r in by_root.get(n, ()) if not pat.match(r))
                if wrong:
                    o.bad("C03:throws", g.where(n, i), "%s is thrown by more than %s: reached from %s" % (t, what, ", ".join(wrong[:5])))
                else:
                    seen.add(t)
                    o.ok("C03:throws", len(by_root.get(n, ())))
            elif c[1] == "__cxa_begin_catch":
                b = swallowed(f, i)
                if b:
                    o.bad("C03:swallows", g.where(n, i), "an exception caught here may not be passed on: %s" % g.path(par, n))
                else:
                    o.ok("C03:swallows")
            else:
                o.ok("C03:call sites")
    for t in THROWS:
        if t not in seen:
            o.bad("C03:throws", "whole interface", "%s never throws %s" % (THROWS[t][1], t))


def swallowed(f, inst):
    """can control get from a catch handler to a return of the function without
    the exception being thrown on or the program ended?"""
    blocks = f.blocks
    where = None
    for bi, b in enumerate(blocks):
        for k, i in enumerate(b):
            if i is inst:
                where = (bi, k + 1)
    seen = set()
    todo = [where]
    while todo:
        bi, k = todo.pop()
        stop = False
        for i in blocks[bi][k:]:
            c = i.get("callee")
            if c and c[0] == "g" and (c[1] in ("__cxa_rethrow", "__cxa_throw", "abort", "__assert_fail", "__clang_call_terminate", "_ZSt9terminatev", "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")):
                stop = True
                break
            if i["op"] in ("resume", "unreachable"):
                stop = True
                break
            if i["op"] == "ret":
                return True
        if stop:
            continue
        for s in succ(blocks[bi][-1]):
            if s not in seen:
                seen.add(s)
                todo.append((s, 0))
    return False


def succ(i):
    out = list(i.get("bb", []))
    if "def" in i:
        out += [i["def"]] + [b for _, b in i["cases"]]
    out += [i[k] for k in ("ok", "uw") if k in i]
    return out


# ------------------------------------------------------------------- C04
def ir04(o, m, g, roots, par, noexc, nortti):
    # the library defines no writable object of static or thread storage duration
    used = {}
    for n in par:
        if n not in m.funcs or user(m, n):
            continue
        if n.startswith("__cxa_guard") or n.startswith("__cxa_thread_atexit") or n == "__tls_get_addr" or n in ("__cxa_atexit", "atexit"):
            o.bad("C04:static", site(g, par, n), "an object with static storage duration is initialised or destroyed at run time: %s" % g.path(par, n))
        for i in g.insts(m.funcs[n]):
            s = set()
            effects.const_globals(i["o"], s)
            for ph in i.get("in", ()):
                effects.const_globals(ph, s)
            for x in s:
                if x in m.globals:
                    used.setdefault(x, (n, i))
                    o.ok("C04:uses of globals")
            c = i.get("callee")
            if c and c[0] == "g" and not user(m, c[1]):
                ext = m.funcs.get(c[1])
                if (ext is None or ext.decl) and not (ext and ext.intrinsic) and not (MATH.match(c[1]) or PLAIN.match(c[1]) or EXC.match(c[1])):
                    o.bad("C04:external", g.where(n, i), "calls %s, whose effects are not known" % c[1])
                else:
                    o.ok("C04:external")
    todo = list(used)
    seen = set(todo)
    while todo:
        x = todo.pop()
        gl = m.globals[x]
        s = set()
        effects.const_globals(gl.get("init") or [], s)
        for y in s:
            if y in m.globals and y not in seen:
                seen.add(y)
                used[y] = used[x]
                todo.append(y)
    for x, (n, i) in sorted(used.items()):
        gl = m.globals[x]
        if gl.get("tls") or not gl.get("const"):
            if x.startswith("_ZTV") or x.startswith("_ZTI") or x.startswith("_ZTS"):
                o.ok("C04:static")
                continue
            o.bad("C04:static", g.where(n, i), "uses the writable static object %s: %s" % (demangle(x), g.path(par, n)))
        else:
            o.ok("C04:static")
    # even unused in this unit
    for x, gl in sorted(m.globals.items()):
        if x.startswith("_ZN8embedded") or "8embedded" in x:
            if x.startswith("_ZGV") or gl.get("tls") or not gl.get("const"):
                o.bad("C04:static", demangle(x), "writable static object defined by the library")
            else:
                o.ok("C04:static")


def demangle(x):
    return subprocess.run(["c++filt", x], stdout=subprocess.PIPE, text=True).stdout.strip()[:160]


# ------------------------------------------- queries over the syntax trees
IN = "isExpansionInFileMatching('^%s')" % re.escape(INC + "/")
ALLOC = ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "valloc", "memalign", "strdup", "strndup", "asprintf", "operator new", "operator new[]", "operator delete", "operator delete[]")
ALLOC_STD = ("make_unique", "make_shared", "allocate_shared", "stable_sort", "inplace_merge", "stable_partition", "get_temporary_buffer", "to_string", "make_exception_ptr", "current_exception")
OWNER_STD = ("vector", "deque", "list", "forward_list", "map", "set", "multimap", "multiset", "unordered_map", "unordered_set", "basic_string", "function", "shared_ptr", "unique_ptr", "valarray", "any", "allocator", "basic_ostringstream", "basic_stringstream", "stack", "queue", "priority_queue", "basic_regex", "promise", "future", "packaged_task", "thread", "basic_string")


def names(ns, pre=""):
    return ", ".join("'%s%s'" % (pre, n) for n in ns)


QUERIES = {
    "C02": [
        ("new without placement", "cxxNewExpr(%s, unless(hasAnyPlacementArg(anything())))" % IN),
        ("new(std::nothrow)", "cxxNewExpr(%s, hasAnyPlacementArg(ignoringImplicit(declRefExpr(to(varDecl(hasName('::std::nothrow')))))))" % IN),
        ("delete", "cxxDeleteExpr(%s)" % IN),
        ("allocation function", "declRefExpr(%s, to(functionDecl(hasAnyName(%s), unless(hasParameter(1, hasType(pointerType()))))))" % (IN, names(ALLOC, "::"))),
        ("allocation function", "unresolvedLookupExpr(%s, hasAnyDeclaration(namedDecl(hasAnyName(%s))))" % (IN, names(ALLOC + tuple("std::" + x for x in ALLOC_STD), "::"))),
        ("allocating standard function", "declRefExpr(%s, to(functionDecl(hasAnyName(%s))))" % (IN, names(ALLOC_STD, "::std::"))),
        ("object that owns memory", "varDecl(%s, unless(parmVarDecl()), hasType(qualType(hasDeclaration(namedDecl(hasAnyName(%s))))))" % (IN, names(OWNER_STD, "::std::"))),
        ("object that owns memory", "varDecl(%s, unless(parmVarDecl()), hasType(qualType(hasCanonicalType(templateSpecializationType(hasDeclaration(namedDecl(hasAnyName(%s))))))))" % (IN, names(OWNER_STD, "::std::"))),
        ("member that owns memory", "fieldDecl(%s, hasType(qualType(hasDeclaration(namedDecl(hasAnyName(%s))))))" % (IN, names(OWNER_STD, "::std::"))),
        ("member that owns memory", "fieldDecl(%s, hasType(qualType(hasCanonicalType(templateSpecializationType(hasDeclaration(namedDecl(hasAnyName(%s))))))))" % (IN, names(OWNER_STD, "::std::"))),
    ],
    "C03": [
        ("throws another type", "cxxThrowExpr(%s, has(expr(unless(hasType(hasUnqualifiedDesugaredType(recordType(hasDeclaration(namedDecl(hasAnyName('::std::out_of_range', '::std::bad_function_call'))))))))))" % IN),
    ],
    "C04": [
        ("static local or member or namespace-scope variable that is not constant", "varDecl(%s, anyOf(hasStaticStorageDuration(), hasThreadStorageDuration()), unless(isConstexpr()), unless(hasType(qualType(isConstQualified()))))" % IN),
        ("thread-local variable", "varDecl(%s, hasThreadStorageDuration())" % IN),
    ],
}
COUNTED = {
    "C02": "cxxNewExpr(%s)" % IN,
    "C03": "cxxThrowExpr(%s)" % IN,
    "C04": "varDecl(%s, anyOf(hasStaticStorageDuration(), hasThreadStorageDuration()))" % IN,
}
POS = re.compile(r"^(\S+?):(\d+):\d+: note: \"root\" binds here")


def ask(pid, flags):
    cmd = ["clang-query"]
    qs = [("counted", COUNTED[pid])] + QUERIES[pid]
    for _, q in qs:
        cmd += ["-c", "match " + q]
    cmd += [SRC, "--"] + flags + ["-I" + INC, "-I" + STUBS, THIRD, "-w"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return qs, r


def queries(c):
    for std in ("11", "17") if not c.thorough else ("11", "14", "17", "20"):
        for extra in ([], ["-fno-exceptions", "-fno-rtti"]):
            qs, r = ask(c.pid, ["-std=c++" + std] + extra)
            parts = re.split(r"^(?:0 matches|1 match|\d+ matches)\.$", r.stdout, flags=re.M)
            if re.search(r"\berror\b", r.stderr + r.stdout) and "matches." not in r.stdout + " " or len(parts) < len(qs) + 1:
                c.broken.append("clang-query: " + (r.stderr + r.stdout)[:600])
                continue
            if re.search(r" error: ", r.stderr):
                c.violation(c.pid + ":interface", "whole interface", "-std=c++%s %s: %s" % (std, " ".join(extra), r.stderr[:400]))
                continue
            for (what, _), txt in zip(qs, parts):
                hits = sorted({(m[1], int(m[2])) for m in map(POS.match, txt.splitlines()) if m})
                if what == "counted":
                    c.ok(c.pid + ":syntax", len(hits))
                    continue
                for f, l in hits:
                    if f.endswith("/ostream_ops.h"):
                        continue
                    c.violation(c.pid + ":syntax", "%s:%d" % (os.path.relpath(f, REPO), l), what)
                c.ok(c.pid + ":queries")


def c02(c):
    run(c, None)
    queries(c)
    c.minimum = {"C02:closure": 3000, "C02:external": 50, "C02:syntax": 5, "C02:queries": 10}
    c.assumptions = ["the C library's math functions, memcpy/memmove/memset and assert's failure handler allocate nothing", "standard exception classes and the exception object itself are excepted by the property",
                     "roots: the public interface as instantiated in drivers/all.cpp; operator<< excluded (streams)"]
    c.explanation = "Call-graph closure of every public operation over the intermediate code of the current sources (indirect calls resolved to every address-taken function of the same type): every external function reached must be one known not to allocate. Queries over the syntax trees of all templates, instantiated or not, for allocating constructs."


def c03(c):
    run(c, None)
    queries(c)
    j = [
        Job("cba.cpp", ("-std=c++17",), "at|front_back|index", "at(), C++17", ("B08:",), gcc_branch=False),
        Job("cba.cpp", ("-std=c++11", "-DNONTRIV", "-DNDEBUG"), "at|front_back|index", "at(), class, NDEBUG", ("B08:",), gcc_branch=False),
        Job("function.cpp", ("-std=c++11",), "const|exception|shapes_.*", "calls, C++11", ("F02:", "F03:"), gcc_branch=False),
        Job("function.cpp", ("-std=c++17", "-fno-exceptions", "-fno-rtti"), "terminate", "empty calls without exceptions", ("F02:",), gcc_branch=False),
        Job("function.cpp", ("-std=c++11", "-fno-exceptions", "-fno-rtti", "-DNDEBUG"), "terminate", "empty calls without exceptions", ("F02:",), gcc_branch=False),
    ]
    for k in range(5):
        j.append(Job("function.cpp", ("-std=c++17", "-DKIND=%d" % k), "history", "empty wrappers, C++17", ("F02:empty call",), gcc_branch=False))
        if c.thorough:
            j.append(Job("function.cpp", ("-std=c++14", "-DCAP=48", "-DALN=16", "-DKIND=%d" % k), "history", "empty wrappers, C++14", ("F02:empty call",), gcc_branch=False))
    from checks import cba
    for conf in ("class, throwing", "class, throwing, NDEBUG"):
        j.append(Job("cba.cpp", cba.CONF[conf], "push_back_copy|push_front_copy|emplace_back|emplace_front", conf, ("B04:",), gcc_branch=False))
    j.append(Job("small.cpp", ("-std=c++17",), "lock_throw", "user code throws under a lock", ("L01:",), gcc_branch=False))
    c.run_jobs(j)
    c.minimum = {"C03:throws": 10, "C03:needs no exception support": 3000, "C03:call sites": 1000, "B08:": 8, "F02:": 20, "B04:": 10}
    c.assumptions = ["user code reached through the interface is arbitrary and may throw, unless declared noexcept",
                     "roots: the public interface as instantiated in drivers/all.cpp"]
    c.explanation = "Call-graph closure of every public operation: the only thrown types are out_of_range (reached from circular-buffer operations only) and bad_function_call (from function wrappers only), every catch handler leads to a rethrow or termination; without exceptions nothing of their run-time support is reached. Abstract interpretation decides that both are thrown exactly in the documented situations, that an exception of user code passes through, and that an empty call terminates without exceptions."


def c04(c):
    run(c, None)
    queries(c)
    c.run_jobs(jobs04(c))
    c.minimum = {"C04:static": 20, "C04:uses of globals": 100, "C04:external": 100, "C04:syntax": 5, "C04:": 100}
    c.assumptions = ["the C library's math functions share no state (errno and signgam excepted)", "roots: the public interface as instantiated in drivers/all.cpp"]
    c.explanation = "Call-graph closure of every public operation over the intermediate code: no reached instruction names a writable object of static or thread storage duration, none is initialised at run time; queries over the syntax trees of all templates for such objects; abstract interpretation with frozen objects: const operations write nothing, others write only to their own object and what they were given to write."


def jobs04(c):
    out = []
    for label, fl, gcc in (("C++11", ("-std=c++11",), True), ("C++17, gcem", ("-std=c++17", "-I" + STUBS), False), ("C++20, NDEBUG, gcem", ("-std=c++20", "-DNDEBUG", "-I" + STUBS), False)):
        out.append(Job("frozen.cpp", fl, ".*", label, ("C04:",), gcc_branch=gcc))
    return out


CHECKS = {"C02": c02, "C03": c03, "C04": c04}
