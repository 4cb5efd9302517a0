"""P01: what the stream operators print"""
from engine.check import Job
from engine.ir import VERIF

INCS = ("-I" + VERIF + "/stubs_os", "-I" + VERIF + "/stubs3p")
CONFS = [("C++11", ("-std=c++11",), True), ("C++17", ("-std=c++17",), True), ("C++20, gcem math, no exceptions", ("-std=c++20", "-fno-exceptions", "-fno-rtti", "-I" + VERIF + "/stubs"), False)]
LONG = [("C++14, NDEBUG", ("-std=c++14", "-DNDEBUG"), True), ("C++17, gcem math", ("-std=c++17", "-I" + VERIF + "/stubs"), False), ("C++20", ("-std=c++20",), True)]


def p01(c):
    c.run_jobs([Job("ostream.cpp", fl + INCS, ".*", n, ("P01:",), gcc_branch=g, split=6) for n, fl, g in CONFS + (LONG if c.thorough else [])])
    c.minimum = {"P01:text": 4000, "P01:values": 800, "P01:stream": 200}
    c.assumptions = ["std::ostream is a stand-in that records the characters and numbers it is given, in order; how it formats a number is the standard library's business",
                     "fpm is a stand-in header", "an imaginary part is an exact real number: minus zero and NaN are not told apart from others"]
    c.explanation = ("The output operators are interpreted over the compiled IR with symbolic components: the sequence of characters and numbers that reaches the stream must be the "
                     "documented notation with every component once and in order, on every path (both signs of the imaginary part, and zero), and the operator must return its stream.")


CHECKS = {"P01": p01}
