"""S01-S05, S08: filters"""
from engine.check import Job
from engine.ir import STUBS

A_REAL = "real arithmetic: rounding, NaN and infinities are not modelled; equality of rational functions by random interpretation over GF(p)^2, p > 2^64"
CFG = [("c++11", ("-std=c++11",), True), ("c++20, gcem", ("-std=c++20", "-I" + STUBS, "-DNDEBUG"), False)]
CFGT = [("c++17", ("-std=c++17",), True), ("c++14, gcem", ("-std=c++14", "-I" + STUBS, "-fno-exceptions", "-fno-rtti"), False)]


def jobs(c, pat, own, pat2=None, large=None):
    cf = CFG + (CFGT if c.thorough else [])
    deep = ("-DDEEP",) if c.thorough else ()
    js = [Job("signal.cpp", fl + deep, pat if i == 0 or c.thorough else pat2 or pat, n, own, hooks=dict(generic=True), gcc_branch=g, split=6)
          for i, (n, fl, g) in enumerate(cf)]
    k = own[0][1:3]
    js.append(Job("signal.cpp", cf[0][1] + ("-DLARGE=%d" % int(k),), large or pat, "large orders", own, hooks=dict(generic=True), gcc_branch=cf[0][2], split=6))
    c.run_jobs(js)


def s01(c):
    jobs(c, "poly_.*", ("S01:",))
    c.minimum = {"S01:": 800}
    c.explanation = "Design coefficients from symbolic prototypes; instance stepped over more samples than it has state cells against the difference equation over its own reported coefficients; step proved linear and time-invariant in (state, input), so agreement extends to all n."
    c.assumptions = [A_REAL]


def s02(c):
    jobs(c, "sos_.*", ("S02:",))
    c.minimum = {"S02:": 400}
    c.explanation = "Each section and the whole cascade stepped over more samples than there are state cells against the reported coefficients; step proved linear and time-invariant."
    c.assumptions = [A_REAL]


def s03(c):
    jobs(c, "sec_.*|rep_.*|num_.*|" + ("alike_.*" if c.thorough else "alike_(?:3_1_1|4_0_2|4_1_2|5_2_1|6_3_3|8_4_4|10_5_5)"), ("S03:",), "alike_4_1_2|alike_8_4_4|sec_[12]_.*|sec_4_[12]_[12]_[mg]|sec_3_1_1_.|num_.*|rep_2_.*|rep_4_2_2|rep_3_1_1", "num_.*")
    c.minimum = {"S03:": 2000}
    c.explanation = "sos_design built from symbolic conjugate-symmetric sets; products of section numerators and denominators compared, as polynomials in a symbol x, with the product over the set; every outcome of the distance comparisons explored."
    c.assumptions = [A_REAL]


def s04(c):
    jobs(c, "tpl?_.*|ts_.*", ("S04:",), large="tpl?_.*")
    c.minimum = {"S04:": 200}
    c.explanation = "Transfer function of the designed filter at a symbolic z compared, as a rational function of all parameters, with the prototype at the transformed s; sections too."
    c.assumptions = [A_REAL]


def s05(c):
    jobs(c, "bw_.*|c1_.*|c2_.*", ("S05:",))
    c.minimum = {"S05:": 800}
    c.explanation = "Poles, zeros and gain from spec().zpk() give the defining squared magnitude as a rational function of w and the ripple; poles are those of the left half plane."
    c.assumptions = [A_REAL]


def s08(c):
    jobs(c, "rest_.*", ("S08:",))
    c.minimum = {"S08:": 500}
    c.explanation = "Bytes of the design and of idle instances frozen while another filters; interleaved outputs equal to solo outputs; copies equal."
    c.assumptions = [A_REAL]


CHECKS = {"S01": s01, "S02": s02, "S03": s03, "S04": s04, "S05": s05, "S08": s08}
