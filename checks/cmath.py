"""X01-X04: complex numbers, vectors, selection/ordering, convolution and polynomials"""
from engine.check import Job
from engine.ir import STUBS

A_REAL = "real arithmetic: rounding, NaN and infinities are not modelled; equality of rational functions by random interpretation over GF(2^61-1)^2"


def jobs(c, pats, own, nmax=8, large=()):
    cf = [("c++11", ("-std=c++11",), True), ("c++17", ("-std=c++17",), True), ("c++20, gcem", ("-std=c++20", "-I" + STUBS), False)]
    if c.thorough:
        cf += [("c++14", ("-std=c++14",), True), ("c++20", ("-std=c++20",), True), ("c++17, gcem", ("-std=c++17", "-I" + STUBS, "-fno-exceptions"), False)]
    big = ("-DNMAX=%d" % nmax,) if c.thorough else ()
    c.run_jobs([Job("cmath.cpp", fl + big, p, n, own, gcc_branch=g) for n, fl, g in cf for p in pats] +
               [Job("cmath.cpp", fl + ("-DLARGE",), p, n + ", large", own, gcc_branch=g) for n, fl, g in (cf if c.thorough else cf[:2]) for p in large])


def x01(c):
    jobs(c, ["arith_.*|functions_.*|predicates_.*"], ("X01:",))
    c.minimum = {"X01:": 300}
    c.assumptions = [A_REAL, "divisors are not zero"]
    c.explanation = ("Every operation is interpreted on complex numbers with symbolic parts (float, double, long double); real and imaginary part of the result must equal the "
                     "mathematical ones as rational functions (sqrt, exp, sin, cos as function symbols); == and is_real are decided on every sign case of the parts.")


def x02(c):
    jobs(c, ["basics_.*|create_.*|mapping_.*", "scalar_.*|complexes_.*", "places_[0-4]", "places_[5-9]"], ("X02:",),
         large=["large_basics_.*|large_create_.*|large_mapping_.*|large_scalar_.*", "large_complexes_.*|large_places_9|large_places_1[67]", "large_places_33|large_places_65"] + (["large_places_100"] if c.thorough else []))
    c.minimum = {"X02:": 8000}
    c.assumptions = [A_REAL, "sizes 0..5 (thorough: 0..7) and every position, count and partner size in that range; sizes 9, 16, 17, 33, 65 and 100 at sampled positions"]
    c.explanation = ("Placement analysis: vectors of distinct symbols go through every operation at every position/count; each result element must be exactly the symbol (or expression) "
                     "documented for its place, and functors count their calls per element.")


def x03(c):
    jobs(c, ["counting_.*|argmins_.*|equality_.*|eq_complex", "sorting_[0-4]", "sorting_[5-9]"], ("X03:",), large=["large_equality_.*|large_order_9|large_order_1[067]", "large_order_33"])
    c.minimum = {"X03:": 3000}
    c.assumptions = ["sizes 0..5 (thorough: argmin up to 6) for all orderings; sizes 9, 10, 16, 17 and 33 for sorted, reversed, rotated, organ-pipe and constant sequences with ties", "predicates are strict weak orders; elements with integer keys stand for all totally ordered elements (the templates see them only through the predicate)"]
    c.explanation = ("Elements are symbolic integers; the interpreter follows every outcome of every comparison (polyhedral constraints keep them consistent, ties included) and decides the "
                     "stated result on each; permutation by tags carried along.")


def x04(c):
    jobs(c, ["conv_[1-4]|convf_.*", "conv_[5-9]", "poly_.*"], ("X04:",), large=["large_conv_.*|poly_.*"])
    c.minimum = {"X04:": 500}
    c.assumptions = [A_REAL, "lengths 1..6 (thorough: 1..8) and pairs of lengths up to 33 for convolution, 0..10, 12, 16 and 20 for polynomials"]
    c.explanation = ("Convolution and polynomial expansion of vectors of distinct real or complex symbols; every coefficient must equal, as a polynomial in the symbols, the defining sum or "
                     "the coefficient of the product of the factors (x - z).")


CHECKS = {"X01": x01, "X02": x02, "X03": x03, "X04": x04}
