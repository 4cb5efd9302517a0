"""Writes MANIFEST.json from the table below, the registered checks and properties.jsonl."""
import importlib
import json
import os
import pkgutil
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks

AI = "relational abstract interpretation of LLVM IR (affine/polyhedral states, loop acceleration)"
NOTE_AI = ("Proof by abstract interpretation for all values of the symbolic parameters named in the evidence, modulo the trusted "
           "front end and the analyser itself; element types/configurations are the listed ones. ")
TECH = {}
for p in "B01 B02 B03 B04 B05 B06 B07 B08".split():
    TECH[p] = (AI + ", inductive over canonical adapter states",
               NOTE_AI + "Every operation from an arbitrary canonical state (capacity, first index, size, content symbolic) back to a canonical state; so any history.")
TS = "typestate analysis by abstract interpretation of LLVM IR (ghost set of live objects)"
for p in "F01 F02 F03".split():
    TECH[p] = (TS + ", closed over the wrapper's abstract states", NOTE_AI + "All operations from all pairs of wrapper states {empty, holds T}, closed under a certificate; kinds of callable are representatives.")
WT = "compile-time acceptance/rejection witnesses (type system), with accepted twins"
TECH["F04"] = (WT + "; " + TS, "Limits decided by the type system for the listed sizes/alignments/signatures; storage location by abstract interpretation.")
TECH["F05"] = (WT + "; " + TS, "static_asserts and rejected programs for the listed signatures; calls as const by abstract interpretation.")
SY = "abstract interpretation of LLVM IR over symbolic reals (equality of rational functions by random interpretation)"
BV = "bit-precise abstract interpretation of LLVM IR (BDD bit vectors, symbolic buffer length)"
TECH.update({
    "V01": (BV, "All values of all standard integer types and all buffer lengths."),
    "V02": (BV + "; " + WT, "All values of all standard integer types."),
    "V03": (BV, "All values of all standard integer types and all buffer lengths."),
    "V04": (BV, "All byte sequences of all lengths and all standard integer types."),
    "V05": (BV + "; " + WT, "All values of all standard signed integer types."),
    "L01": ("typestate/effect analysis of every exit path by abstract interpretation of LLVM IR; " + WT, "All paths of the listed scope shapes including unwind edges; mutex behaviour arbitrary."),
    "M01": (TS + "; " + WT, "Value types are representatives (copyable, move-only, competing constructors, aggregates)."),
    "M02": (WT + " over noexcept; " + TS, "noexcept equality by static_assert for the listed kinds of value; exceptions by abstract interpretation."),
    "T01": (WT + " (exhaustive type-level evaluation up to a bound)", "Every N up to the bound and selected ranges; template metaprograms have no symbolic form."),
    "T02": (WT + " (matrix against the standard's own traits)", "Listed function objects x argument lists x result types."),
    "X01": (SY, "All values of the operands as symbols; rounding not modelled."),
    "X02": (SY + ", placement of distinct symbols", "All element values; sizes up to the stated bound."),
    "X03": (AI + " over symbolic integer keys", "All orderings of the keys, ties included; sizes up to the stated bound."),
    "X04": (SY, "All element values; lengths up to the stated bound."),
    "D01": ("abstract interpretation of LLVM IR (record constructors), inspection of compiled sections, abstract interpretation of the reader script's syntax tree", "All coefficient values as symbols and name lengths 0..256; orders, value types and record sequences as listed; little-endian hosts; the script reads no long double."),
    "P01": (SY + ", over a recording stand-in of the stream", "All component values as symbols, both signs; lengths and nestings as listed; number formatting is left to the standard library."),
    "X05": ("abstract interpretation of LLVM IR over symbolic reals with uninterpreted library calls; " + WT, "Equality of real expressions; rounding, NaN and infinities are not modelled; gcem is a stand-in header."),
    "X06": (WT + " (constant evaluation)", "Every operation, values as listed; C++11 to C++20, g++ with its own functions, g++ and clang with gcem (a stand-in that is not constexpr, so without transcendental functions)."),
    "S01": (SY, "All coefficients as they come from symbolic designs and all inputs as symbols; linearity and time-invariance of the step extends agreement to every n; orders and sample types as listed; rounding not modelled."),
    "S02": (SY, "All inputs as symbols; linearity and time-invariance of the step extends agreement to every n; orders and sample types as listed; rounding not modelled."),
    "S03": (SY, "All positions of zeros and poles (symbols) for small orders, generic numbers for larger ones; every order of the magnitudes the code compares; rounding not modelled."),
    "S04": (SY, "Prototype zeros, poles, gain, cut-off and sample rate as symbols; numbers of zeros and poles as listed; rounding not modelled."),
    "S05": (SY, "Ripple as a symbol, orders up to the stated bound; trigonometric values of rational angles exact in GF(p); rounding not modelled."),
    "S06": ("abstract interpretation of LLVM IR to extract the table, exact Newton-step bound (integer arithmetic) around each constant", "Complete over the supported orders 1..100."),
    "S07": (WT + " (g++ constant evaluation); call-graph closure and instruction effects over LLVM IR", "Listed orders x families x forms x standards for constant evaluation; every instruction of the closure for run-time arithmetic."),
    "S08": ("effect analysis by abstract interpretation of LLVM IR (frozen objects) over symbolic reals", "All inputs; interleavings of two instances with idle third, orders and sample types as listed."),
    "C01": ("type checking by two compiler front ends over a configuration matrix; object-symbol closure (no library entity used without definition)", "Compilers g++ 13 and clang 18, standards, exception/RTTI/NDEBUG variants and data models as listed."),
    "C02": ("call-graph closure over LLVM IR (reachability of allocators); syntax-tree queries over all templates", "Every public operation as instantiated in drivers/all.cpp, all its paths, listed configurations; indirect calls over-approximated by type."),
    "C03": ("call-graph closure and exception-edge analysis over LLVM IR; abstract interpretation of the throwing operations", "Every public operation as instantiated in drivers/all.cpp, all its paths, with and without exceptions and RTTI."),
    "C04": ("global-object effect analysis over the call-graph closure (LLVM IR); syntax-tree queries over all templates; abstract interpretation with frozen objects", "Every public operation as instantiated in drivers/all.cpp, all its paths, listed configurations."),
})
NA = {
    "N01": "Quantifies over floating-point rounding error of transcendental constant evaluation for every design; no sound static error bound for the compiler's constexpr math back ends is in reach here.",
    "N02": "Stability after rounding is a numerical property of the rounded coefficient values of each design; deciding it needs the values, not the shape of the code.",
    "N03": "Mutual exclusion depends on the user's mutex implementation and on schedules; the library's part (lock/unlock pairing) is L01.",
}


def main():
    have = {}
    for m in pkgutil.iter_modules(checks.__path__):
        have.update(getattr(importlib.import_module("checks." + m.name), "CHECKS", {}))
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    out = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[])
    for p in props:
        if p in have and p in TECH:
            t, n = TECH[p]
            out["checks"].append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                                      evidence_file="evidence/%s.json" % p, technique=t, level="other", level_note=n))
        else:
            out["not_applicable"].append(dict(property=p, reason=NA.get(p, "No check built yet.")))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
