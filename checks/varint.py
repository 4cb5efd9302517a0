"""V01-V05 varint: bit-precise (BDD) abstract interpretation, symbolic buffer length"""
from engine.check import Job
from engine import witness
from engine.witness import Prog

W = "include/embedded/varint.h"


def jobs(c, pats, own, both=True):
    cf = [("c++11", ("-std=c++11",)), ("c++17", ("-std=c++17",))]
    if both or c.thorough:
        cf.append(("c++20, unsigned char", ("-std=c++20", "-funsigned-char", "-fno-exceptions", "-fno-rtti")))
    if c.thorough:
        cf += [("c++14, optimised", ("-std=c++14", "-DNDEBUG")), ("c++20", ("-std=c++20",)), ("c++17, short wchar_t", ("-std=c++17", "-fshort-wchar"))]
    c.run_jobs([Job("varint.cpp", fl, p, n, own) for n, fl in cf for p in pats])


H = "#include <embedded/varint.h>\n#include <limits>\n#include <cstdint>\nusing embedded::varint;\n"
TYPES = "signed char,short,int,long,long long,unsigned char,unsigned short,unsigned,unsigned long,unsigned long long,char,wchar_t,char16_t,char32_t,std::int8_t,std::int16_t,std::int32_t,std::int64_t,std::uint8_t,std::uint16_t,std::uint32_t,std::uint64_t,std::size_t,std::ptrdiff_t".split(",")


def v01(c):
    jobs(c, ["enc_.*", "enc2_.*"], ("V01:",))
    c.minimum = {"V01:": 2000}
    c.assumptions = ["integer types are the standard ones (bool and character types included)"]
    c.explanation = ("Bit-precise abstract interpretation: the value is a vector of BDD variables (all 2^w values at once), the buffer length a symbolic integer; on every path the bytes "
                     "written must equal, bit for bit, the 7-bit groups of the documented encoding, for pointers, a recording iterator and back_insert_iterator.")


def v02(c):
    jobs(c, ["size_.*", "sizeenc_.*"], ("V02:",))
    P = [Prog("V02:compile time", "size in constant expressions", H + "".join(
        'static_assert(varint::size(static_cast<%s>(0)) == 1, "");\ntemplate <std::size_t N> struct use; using u%d = use<varint::size(std::numeric_limits<%s>::max())>*;\n' % (t, i, t)
        for i, t in enumerate(TYPES)), where=W)]
    witness.run(c, P)
    c.minimum = {"V02:": 200}
    c.assumptions = ["integer types are the standard ones (bool and character types included)"]
    c.explanation = "Bit-precise abstract interpretation of size() for all values against the number of non-zero 7-bit groups, and against the number of bytes each form of encode writes."


def v03(c):
    jobs(c, ["enc_.*"], ("V03:",))
    c.minimum = {"V03:": 1000}
    c.assumptions = ["integer types are the standard ones (bool and character types included)", "the range is valid: end is reachable from begin"]
    c.explanation = ("The buffer is a memory region of exactly the symbolic length n; every store is checked against its bounds for all n and all values; the returned iterator is decided "
                     "against the required length.")


def v04(c):
    jobs(c, ["dec_.*", "dec2_.*", "trip_.*"], ("V04:",))
    c.minimum = {"V04:": 1500}
    c.assumptions = ["integer types are the standard ones, bool excepted", "an encoding may use no more groups than the type's width needs (longer, zero-padded ones count as not fitting)"]
    c.explanation = ("Every byte of the input is a vector of BDD variables and its length a symbolic integer: value, position and rejection are decided for all inputs against the "
                     "documented meaning; every load is checked against the bounds; a forward iterator checks that nothing after the final byte is read.")


def v05(c):
    jobs(c, ["zz_.*"], ("V05:",))
    P = [Prog("V05:compile time", "zig-zag in constant expressions", H + "".join(
        'static_assert(varint::zig_zag_decode(varint::zig_zag_encode(std::numeric_limits<%s>::min())) == std::numeric_limits<%s>::min() && varint::zig_zag_encode(static_cast<%s>(-1)) == 1 && varint::zig_zag_encode(std::numeric_limits<%s>::min()) == std::numeric_limits<std::make_unsigned<%s>::type>::max(), "");\n' % ((t,) * 5)
        for t in TYPES if t.startswith("std::int") or t in ("signed char", "short", "int", "long", "long long", "std::ptrdiff_t")), where=W)]
    witness.run(c, P)
    c.minimum = {"V05:": 60}
    c.assumptions = ["the standard signed integer types"]
    c.explanation = "Bit-precise abstract interpretation of both mappings over all values of each width against the documented arithmetic, and of both compositions."


CHECKS = {"V01": v01, "V02": v02, "V03": v03, "V04": v04, "V05": v05}
