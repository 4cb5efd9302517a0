"""Common frame of all checks: run analyses in parallel, decide, write the
evidence file, honour the known-findings file, print the verdict."""
import concurrent.futures as cf
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

from . import ir

VERIF = ir.VERIF
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
GENERIC = ("mem:", "ub:", "stop:", "heap")
# no driver of the unchanged tree needs a third of this; an analysis that does
# not end is cut off, and what it has found by then counts
CPU_LIMIT = {"quick": 420, "thorough": 700}
WALL_LIMIT = 780
GRACE = 120     # for the rest, once something is known to be wrong


class OutOfTime(BaseException):
    pass


def _alarm(sig, frame):
    raise OutOfTime()


def worker_init():
    """workers go when their parent goes"""
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class Job:
    """one compiled driver module and the driver functions to analyse in it"""

    def __init__(self, src, flags=(), drivers=".*", label="", own=(), hooks=None, fallback=None, gcc_branch=True,
                 maxstates=None, post=None, split=1):
        self.src, self.flags, self.drivers, self.label = src, tuple(flags), drivers, label
        self.own, self.hooks, self.fallback, self.gcc_branch = tuple(own), dict(hooks or {}), fallback, gcc_branch
        self.maxstates = maxstates
        self.post = post
        self.split = split


def ownpred(own):
    own = tuple(own)
    return lambda ident: ident.startswith(own) or ident.startswith(GENERIC)


def drv_names(mod, pat):
    return sorted(f for f in mod.funcs if f.startswith("drv_") and not mod.funcs[f].decl and re.fullmatch("drv_(?:%s)" % pat, f))


def alternatives(pat):
    out, depth, cur = [], 0, ""
    for ch in pat:
        depth += (ch in "([") - (ch in ")]")
        if ch == "|" and not depth:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def at_special(job, mod, n, sp, r, d):
    """the driver once more, with an input for which a comparison comes out equal"""
    from .interp import Interp
    it = Interp(mod, ownpred(job.own))
    it.hooks = dict(job.hooks)
    it.bind = [sp]
    try:
        it.run_driver(n)
    except Exception:
        r["broken"].append("%s %s at %s = %s: %s" % (job.label, n, sp[0], sp[1], traceback.format_exc(limit=-3)))
        d["ok"] = False
        return
    for v in it.viol:
        r["viol"].append(dict(ident=v.ident, where=v.where, text="%s (where %s = %s)" % (v.text, sp[0], sp[1]), witness=v.witness, driver=n, label=job.label))
    for k, c in it.proved.items():
        if ownpred(job.own)(k):
            r["proved"][k] = r["proved"].get(k, 0) + c


def one_driver(job, mod, n):
    from .interp import Interp
    r = dict(drivers=[], viol=[], undec=[], broken=[], proved={}, fns=[], insts=0, states=0, accel=0)
    it = Interp(mod, ownpred(job.own))
    it.hooks = dict(job.hooks)
    if job.maxstates:
        it.MAX_ITEMS = job.maxstates
    t1 = time.time()
    d = dict(name=n, ok=True)
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT["thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"])
    try:
        it.run_driver(n)
        if job.post:
            mod_name, fn = job.post
            m = __import__(mod_name, fromlist=[fn])
            getattr(m, fn)(it, mod, n, r)
    except ir.AnalysisBroken as e:
        r["broken"].append("%s %s: %s" % (job.label, n, e))
        d["ok"] = False
    except OutOfTime:
        r["broken"].append("%s %s: out of time" % (job.label, n))
        d["ok"] = False
    except RecursionError:
        r["broken"].append("%s %s: recursion" % (job.label, n))
        d["ok"] = False
    except Exception:
        r["broken"].append("%s %s: %s" % (job.label, n, traceback.format_exc(limit=-6)))
        d["ok"] = False
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    if it.undec:
        d["ok"] = False
    if d["ok"] and not it.viol and not it.proved:
        r["broken"].append("%s %s: no obligation was generated" % (job.label, n))
    if d["ok"] and not it.viol and not it.ends:
        r["broken"].append("%s %s: end not reached (vacuous)" % (job.label, n))
    own = ownpred(job.own)
    for k, c in it.proved.items():
        if own(k):
            r["proved"][k] = r["proved"].get(k, 0) + c
    for v in it.viol:
        r["viol"].append(dict(ident=v.ident, where=v.where, text=v.text, witness=v.witness, driver=n, label=job.label))
    for v in it.undec:
        r["undec"].append(dict(ident=v.ident, where=v.where, text=v.text, driver=n, label=job.label))
    for sp in it.special if d["ok"] and not it.viol else ():
        at_special(job, mod, n, sp, r, d)
    r["fns"] = [mod.funcs[f].dname for f in it.fns]
    r["insts"], r["states"], r["accel"] = it.ninst, it.nstates, it.accel
    d["s"] = round(time.time() - t1, 2)
    d["n"] = sum(it.proved.values())
    r["drivers"].append(d)
    return r


_ctx = None


def _sub(n):
    return one_driver(_ctx[0], _ctx[1], n)


def run_job(job):
    """worker: returns a plain dict"""
    global _ctx
    r = dict(label=job.label, flags=list(job.flags), src=job.src, drivers=[], viol=[], undec=[], broken=[], proved={}, fns=[],
             insts=0, states=0, accel=0, compile_error=None)
    t0 = time.time()
    try:
        mod = ir.load(os.path.join(VERIF, "drivers", job.src), job.flags, job.gcc_branch)
    except ir.CompileError as e:
        # code for C++14 and later only is C01's business
        fl = tuple("-std=c++14" if f == "-std=c++11" else f for f in job.flags)
        try:
            if fl == tuple(job.flags):
                raise e
            mod = ir.load(os.path.join(VERIF, "drivers", job.src), fl, job.gcc_branch)
            r["label"] += " (as C++14)"
        except ir.CompileError as e:
            r["compile_error"] = str(e)
            return r
    except ir.AnalysisBroken as e:
        r["broken"].append("%s: %s" % (job.label, e))
        return r
    names = drv_names(mod, job.drivers)
    for alt in alternatives(job.drivers):
        if not drv_names(mod, alt):
            r["broken"].append("%s: no driver matches %r" % (job.label, alt))
    if job.split > 1 and len(names) > 1:
        _ctx = (job, mod)
        with cf.ProcessPoolExecutor(max_workers=min(job.split, len(names)), mp_context=multiprocessing.get_context("fork"), initializer=worker_init) as ex:
            parts = list(ex.map(_sub, names))
        _ctx = None
    else:
        parts = [one_driver(job, mod, n) for n in names]
    fns = set()
    for q in parts:
        for k, v in q.items():
            if k == "proved":
                for i, c in v.items():
                    r["proved"][i] = r["proved"].get(i, 0) + c
            elif k == "fns":
                fns |= set(v)
            elif k in r:
                r[k] += v
            else:
                r[k] = v
    r["fns"] = sorted(fns)
    r["wall"] = round(time.time() - t0, 2)
    if not names:
        r["broken"].append("%s: no driver matches %s" % (job.label, job.drivers))
    return r


def no_result(job):
    return dict(label=job.label, flags=list(job.flags), src=job.src, drivers=[], viol=[], undec=[], broken=["%s %s: out of time, or its process died" % (job.label, job.drivers[:80])],
                proved={}, fns=[], insts=0, states=0, accel=0, compile_error=None)


def run_all(jobs, workers=8, until=None):
    """the results of run_job, in order; None for what did not end in time"""
    import ctypes  # noqa: F401 (before the fork)
    ex = cf.ProcessPoolExecutor(max_workers=min(workers, max(1, len(jobs))), initializer=worker_init)
    futs = [ex.submit(run_job, j) for j in jobs]
    until = until or time.time() + WALL_LIMIT
    pend = set(futs)
    wrong = None
    while pend:
        end = until if wrong is None else min(until, wrong + GRACE)
        if time.time() >= end:
            break
        done, pend = cf.wait(pend, timeout=max(0.1, end - time.time()), return_when=cf.FIRST_COMPLETED)
        for f in done:
            if f.exception():
                continue
            r = f.result()
            if wrong is None and (r["viol"] or r["compile_error"]):
                wrong = time.time()
    if pend:
        for p in list(ex._processes.values()):
            p.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    else:
        ex.shutdown()
    return [f.result() if f not in pend and not f.exception() else None for f in futs]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.viol = []        # dict(ident, where, text, witness)
        self.undec = []
        self.broken = []
        self.cov = {}
        self.proved = {}
        self.fns = set()
        self.notes = []
        self.assumptions = []
        self.explanation = ""
        self.minimum = {}
        self.drivers = []
        self.slow = (0, "")
        self.samples = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ok(self, ident, n=1):
        self.proved[ident] = self.proved.get(ident, 0) + n

    def violation(self, ident, where, text, witness=None):
        self.viol.append(dict(ident=ident, where=where, text=text, witness=witness))

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def run_jobs(self, jobs, workers=8):
        ir.irdump_path()
        res = []
        jobs = list(jobs)
        until = self.t0 + WALL_LIMIT
        for job, r in zip(jobs, run_all(jobs, workers, until)):
            res.append((job, r or no_result(job)))
        retry = []
        for job, r in res:
            bad = (r["undec"] or r["broken"]) and not any(r["viol"] for _, r in res)
            if bad and job.fallback and not r["compile_error"]:
                names = {d["name"] for d in r["drivers"] if not d["ok"]}
                if names:
                    j2 = Job(job.src, job.flags + tuple(job.fallback), "|".join(n[4:] for n in sorted(names)), job.label + " (finite)", job.own,
                             job.hooks, None, job.gcc_branch)
                    retry.append((job, r, j2, names))
        if retry:
            # spread the drivers over the workers
            split = []
            for job, r, j2, names in retry:
                for n in sorted(names):
                    split.append((r, Job(j2.src, j2.flags, n[4:], j2.label, j2.own, j2.hooks, None, j2.gcc_branch)))
            out = run_all([x for _, x in split], workers, until)
            for (r, j), r2 in zip(split, out):
                r2 = r2 or no_result(j)
                n = "drv_" + j.drivers
                if not r2["undec"] and not r2["broken"] and not r2["compile_error"]:
                    # the finite partition decides this driver
                    lab = "%s %s:" % (r["label"], n)
                    r["undec"] = [u for u in r["undec"] if u["driver"] != n]
                    r["broken"] = [b for b in r["broken"] if not b.startswith(lab)]
                    self.notes.append("%s: decided by the finite partition only (%s)" % (lab, " ".join(j.flags)))
                else:
                    for b in r2["broken"]:
                        r["broken"].append("finite: " + b)
                res.append((j, r2 if not (r2["undec"] or r2["broken"]) else dict(r2, undec=[], broken=[])))
        for job, r in res:
            if r["compile_error"]:
                self.violation("interface", job.src, "a use of the public interface no longer compiles (%s): %s" % (
                    " ".join(job.flags), first_error(r["compile_error"])))
                continue
            for v in r["viol"]:
                self.viol.append(v)
            self.undec += r["undec"]
            self.broken += r["broken"]
            for k, n in r["proved"].items():
                self.ok(k, n)
            self.fns |= set(r["fns"])
            self.count("instructions_interpreted", r["insts"])
            self.count("abstract_states", r["states"])
            self.count("loop_summaries", r["accel"])
            self.count("driver_runs", len(r["drivers"]))
            for d in r["drivers"]:
                if d.get("s", 0) > self.slow[0]:
                    self.slow = (d["s"], d["name"])
            self.drivers.append(dict(src=job.src, flags=" ".join(job.flags), drivers=[d["name"] for d in r["drivers"]], wall=r.get("wall")))
        return res

    # ---------------------------------------------------------------- verdict
    def finish(self):
        known = load_known(self.pid)
        n_ob = sum(self.proved.values())
        code = 0
        shown = []
        real = []
        for v in self.viol:
            k = next((x for x in known if x["ident"] == v["ident"] and x["where"] in v["where"] + " " + v["text"]), None)
            if k:
                if k["line"] not in shown:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                    shown.append(k["line"])
            else:
                real.append(v)
        if not real:
            for ident, n in self.minimum.items():
                have = sum(c for k, c in self.proved.items() if k.startswith(ident))
                if have < n:
                    self.broken.append("only %d obligations of %s, expected at least %d" % (have, ident, n))
        if real:
            os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
            path = os.path.join(EVID, "replay", self.pid + ".json")
            with open(path, "w") as f:
                json.dump(real, f, indent=1, default=str)
            for v in real[:8]:
                print("  %s at %s\n    %s\n    witness: %s" % (v["ident"], v["where"], str(v["text"])[:700], str(v.get("witness"))[-400:]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            code = 1
        elif self.broken or self.undec:
            for b in self.broken[:10]:
                print("ANALYSIS-BROKEN %s: %s" % (self.pid, str(b)[:1200]))
            for u in self.undec[:10]:
                print("UNDECIDED %s: %s at %s: %s [%s %s]" % (self.pid, u["ident"], u["where"], u["text"][:600], u.get("label"), u.get("driver")))
            code = 2
        lib = sorted(f for f in self.fns if "embedded::" in f or not f.startswith(("drv_", "std::")))
        cov = dict(self.cov)
        cov["explanation"] = self.explanation or "static analysis"
        cov["obligations"] = n_ob + len(real)
        cov["discharged"] = n_ob
        cov["obligations_by_rule"] = dict(sorted(self.proved.items()))
        cov["functions_analysed"] = len(self.fns)
        cov["library_functions"] = [x[:160] for x in lib[:400]]
        cov["checker_cmd"] = "python3 check.py " + self.pid
        cov["trusted_base"] = ["clang 18 front end (AST to unoptimised LLVM IR)", "engine/ (abstract interpreter)", "drivers/ (statement of the obligations)"]
        if self.drivers:
            cov["units"] = self.drivers
        if self.slow[0]:
            cov["slowest_driver"] = "%s %.1f s" % (self.slow[1], self.slow[0])
        if self.notes:
            cov["notes"] = self.notes
        cov["samples"] = self.samples or [dict(rule=k, discharged=v) for k, v in list(sorted(self.proved.items()))[:12]] or ["none"]
        ev = dict(property=self.pid, tier="thorough" if self.thorough else "quick", seed=self.seed, level="other", coverage=cov,
                  assumptions=self.assumptions or ["see DESIGN.md"], wall_s=round(time.time() - self.t0, 2), violations=len(real))
        if real:
            ev["violation_list"] = real[:40]
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        if code == 0:
            print("OK %s: %d obligations discharged, %d functions analysed, %.1f s" % (self.pid, n_ob, len(self.fns), time.time() - self.t0))
        return code


def first_error(txt):
    for l in txt.splitlines():
        if "error:" in l:
            return l[:300]
    return txt[:300]


def load_known(pid):
    """lines: known: property=<id> ident=<rule> where=<substring> :: <what fails>"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) ident=(\S+) where=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(dict(ident=m.group(2), where=m.group(3), what=m.group(4), line=l))
    return out
