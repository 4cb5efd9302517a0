"""D01: debug records and the script that reads them"""
import os
import re
import shutil
import struct
import subprocess
import tempfile

from engine import ir, pyabs
from engine.check import Job
from engine.ir import INC, REPO, STUBS

SCRIPT = os.path.join(REPO, "scripts", "parse-filter-coefs.py")
HDR = "include/embedded/signal/debug_filter_coefs.h"
NOMATH = "-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR"

# ------------------------------------------------------------------ the macros
# designs whose coefficients are exact: (z + ...) (1 section / order 1..3)
TU = r"""
#include <embedded/signal/debug_filter_coefs.h>
#include <embedded/signal/filter.h>
namespace cm = embedded::cmath;
namespace sg = embedded::signal;
namespace dt = embedded::signal::detail;
template <typename F, std::size_t N> struct G {
  F v[N];
  constexpr cm::complex<F> operator()(std::size_t i) const { return cm::complex<F>(v[i]); }
};
template <typename F, std::size_t N>
constexpr dt::zpk_value<N, N, F> make(G<F, N> z, G<F, N> p, F k) {
  return dt::zpk_value<N, N, F>(cm::vector<cm::complex<F>, N>::create(z), cm::vector<cm::complex<F>, N>::create(p), k);
}
constexpr sg::poly_design<float, 1> first(make<float, 1>({{0.5f}}, {{0.25f}}, 2.0f));
LIBEMB_DEBUG_FILTER_COEFS(first);
constexpr sg::sos_design<double, 1> second(make<double, 1>({{-1.0}}, {{0.75}}, 4.0), sg::sos_gain::first_section);
LIBEMB_DEBUG_FILTER_COEFS(second);
constexpr sg::poly_design<double, 2> third(make<double, 2>({{0.5, -0.5}}, {{0.25, 0.5}}, 8.0));
LIBEMB_DEBUG_FILTER_COEFS_NAME(third, "");
constexpr sg::sos_design<float, 2> fourth(make<float, 2>({{0.5f, -0.5f}}, {{0.25f, 0.5f}}, 8.0f), sg::sos_gain::first_section);
LIBEMB_DEBUG_FILTER_COEFS_NAME(fourth, LONGNAME);
LIBEMB_DEBUG_FILTER_COEFS_NAME(fourth, "again");
LIBEMB_DEBUG_FILTER_COEFS(first);
"""
LONG = "0123456789" * 13
# name (None: design, line found in the unit), structure, value type, coefficients
WANT = [
    ("first", 1, 0, [2.0, -1.0, 1.0, -0.25]),
    ("second", 0, 1, [4.0, 4.0, 0.0, -0.75, 0.0]),
    ("third", 1, 1, [8.0, 0.0, -2.0, 1.0, -0.75, 0.125]),
    ("fourth", 0, 0, [8.0, 0.0, -2.0, -0.75, 0.125]),
    ("again", 0, 0, [8.0, 0.0, -2.0, -0.75, 0.125]),
    ("first", 1, 0, [2.0, -1.0, 1.0, -0.25]),
]
SECTION = ".libemb_filter_coefs"


def names(path):
    lines = TU.split("\n")
    out = []
    for i, l in enumerate(lines):
        m = re.match(r"LIBEMB_DEBUG_FILTER_COEFS\((\w+)\);", l)
        if m:
            out.append("%s (%s:%d)" % (m.group(1), path, i + 1))
        m = re.match(r"LIBEMB_DEBUG_FILTER_COEFS_NAME\(\w+, (.*)\);", l)
        if m:
            out.append({'""': "", '"again"': "again", "LONGNAME": LONG}[m.group(1)])
    return out


def objects(c):
    """the section each compiler emits for a unit with six records"""
    d = tempfile.mkdtemp(prefix="d01-")
    secs = []
    try:
        src = os.path.join(d, "u.cpp")
        open(src, "w").write(TU)
        want = names(src)
        confs = [("g++", "-std=c++14", "-O0"), ("g++", "-std=c++14", "-O2"), ("g++", "-std=c++20", "-O2"), ("clang++", "-std=c++11", "-O2"), ("clang++", "-std=c++17", "-O0")]
        if c.thorough:
            confs += [("g++", "-std=c++17", "-Os"), ("clang++", "-std=c++14", "-O1"), ("clang++", "-std=c++20", "-O2"), ("g++", "-std=c++14", "-O3")]
        for cc, std, opt in confs:
            lab = "%s %s %s" % (cc, std, opt)
            obj, raw = os.path.join(d, "u.o"), os.path.join(d, "u.bin")
            for f in (obj, raw):
                if os.path.exists(f):
                    os.unlink(f)
            r = ir.compiler([cc, std, opt, "-c", "-I" + INC, "-I" + STUBS, NOMATH, '-DLONGNAME="%s"' % LONG, src, "-o", obj])
            if r.returncode:
                e = [l for l in r.stdout.splitlines() if "error" in l]
                c.violation("D01:macro objects", HDR, "a unit with debug records does not compile (%s): %s" % (lab, (e or [r.stdout])[0][:400]), dict(unit=TU))
                continue
            subprocess.run(["objcopy", "-O", "binary", "-j", SECTION, "--set-section-flags", SECTION + "=alloc", obj, raw], capture_output=True)
            b = open(raw, "rb").read() if os.path.exists(raw) else b""
            if not b:
                c.violation("D01:macro objects", HDR, "no section %s in the object file (%s)" % (SECTION, lab), dict(unit=TU))
                continue
            items = split(c, lab, b, want)
            if items is not None:
                secs.append((lab, items, want))
    finally:
        shutil.rmtree(d)
    return secs


def split(c, lab, b, want):
    """check the records in the section, return it with the coefficients made symbolic"""
    items, pos, got = list(b), 0, []
    while pos < len(b):
        if b[pos:pos + 4] != b"FILT":
            if b[pos]:
                c.violation("D01:macro objects", HDR, "bytes that belong to no record at offset %d of the section (%s)" % (pos, lab))
                return None
            pos += 1
            continue
        if len(b) < pos + 128:
            c.violation("D01:macro objects", HDR, "a record is cut off (%s)" % lab)
            return None
        magic, length, version, structure, vt, nm = struct.unpack("<IHBBB119s", b[pos:pos + 128])
        if vt not in (0, 1) or structure not in (0, 1) or length < 128 or pos + length > len(b) or nm[-1:] != b"\0":
            c.violation("D01:macro objects", HDR, "record header at offset %d: length %d, structure %d, value type %d (%s)" % (pos, length, structure, vt, lab))
            return None
        w = 8 if vt else 4
        n = (length - 128) // w
        vals = struct.unpack("<%d%s" % (n, "d" if vt else "f"), b[pos + 128:pos + 128 + n * w])
        got.append((pos, nm.rstrip(b"\0").decode("utf-8", "replace"), structure, vt, list(vals), n, w))
        pos += length
    exp = sorted(((w[:118],) + x[1:] for w, x in zip(want, WANT)), key=str)
    have = sorted(((g[1],) + g[2:4] + (g[4],) for g in got), key=str)
    if exp != have:
        miss = [e for e in exp if e not in have] or exp
        extra = [h for h in have if h not in exp] or have
        c.violation("D01:macro objects", HDR, "records of a unit (%s): expected %s, the object has %s (%d records, expected %d)" % (lab, miss[0], extra[0], len(have), len(exp)), dict(unit=TU))
        return None
    c.ok("D01:macro objects", len(have))
    out = []
    for r, g in enumerate(got):
        for k in range(g[5]):
            for o in range(g[6]):
                items[g[0] + 128 + k * g[6] + o] = (r, k, o, g[6])
        out.append((g[1], g[2], g[3], g[5]))
    return pyabs.AB(items), out


# ------------------------------------------------------------------ the script
SOS = ["b0", "b1", "b2", "a1", "a2"]


def record(r, name, structure, vt, order):
    w = 8 if vt else 4
    n = 5 * ((order + 1) // 2) if structure == 0 else 2 * (order + 1)
    nb = name.encode()[:118]
    h = struct.pack("<IHBBB", 0x544C4946, 128 + n * w, 0, structure, vt) + nb + bytes(119 - len(nb))
    return list(h) + [(r, k, o, w) for k in range(n) for o in range(w)], (name[:118], structure, vt, n)


def sequences(thorough):
    ns = ["", "x", "low (src/filter.cpp:12)", "n" * 117, "0123456789" * 12]
    kinds = [(s, v, o) for s in (0, 1) for v in (0, 1) for o in ((1, 2, 3, 4, 9) if not thorough else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 25))]
    for i, k in enumerate(kinds):
        yield [(ns[i % 5],) + k], 0
    pads = (0, 4, 8, 16, 24, 28) + ((12, 20, 32, 60) if thorough else ())
    for p in pads:
        for i in range(0, len(kinds), 2 if not thorough else 1):
            yield [(ns[i % 5],) + kinds[i], (ns[(i + 1) % 5],) + kinds[-1 - i], (ns[(i + 2) % 5],) + kinds[(i + 7) % len(kinds)]], p


def read(c, label, data, recs, src):
    rel = os.path.relpath(SCRIPT, REPO)
    wit = dict(section=label, records=[dict(name=r[0], structure=r[1], valtype=r[2], values=r[3]) for r in recs])
    try:
        ev = pyabs.analyse(src, SCRIPT, {".text": pyabs.AB([0x90] * 8), SECTION: data})
    except pyabs.Raised as e:
        c.violation("D01:parser", "%s:%d" % (rel, e.line), "the script stops with %s (%s) on records %s" % (e.kind, e.text, [r[:4] for r in recs]), wit)
        return False
    except pyabs.Unsupported as e:
        c.undec.append(dict(ident="D01:parser", where=rel, text="construct outside of the analysed subset: %s" % e, driver="", label=label))
        return False
    lines = "".join(ev.out).split("\n")
    pos = 0
    for r, (name, structure, vt, n) in enumerate(recs):
        # the name first
        while pos < len(lines) and not (name in lines[pos] and "\u27e6" not in lines[pos]):
            if "\u27e6" in lines[pos]:
                break
            pos += 1
        if pos >= len(lines) or "\u27e6" in lines[pos]:
            c.violation("D01:parser", rel, "the name '%s' of record %d is not printed before its values" % (name, r), wit)
            return False
        pos += 1
        for k in range(n):
            while pos < len(lines) and "\u27e6" not in lines[pos]:
                pos += 1
            tok = "\u27e6%d.%d\u27e7" % (r, k)
            lab = SOS[k % 5] if structure == 0 else "%s[%d]" % ("b" if k < n // 2 else "a", k % (n // 2))
            if pos >= len(lines) or tok not in lines[pos]:
                c.violation("D01:parser", rel, "record %d (%s): value %d (%s) is not printed in its place; printed '%s'" % (r, name, k, lab, lines[pos] if pos < len(lines) else "nothing"), wit)
                return False
            if not re.search(r"(?<![\w\[])" + re.escape(lab) + r"(?![\w\[])", lines[pos][:lines[pos].index("\u27e6")]):
                c.violation("D01:parser", rel, "record %d (%s): value %d is printed as '%s', it is %s" % (r, name, k, lines[pos].strip(), lab), wit)
                return False
            pos += 1
        c.ok("D01:parser", n + 1)
    if any("\u27e6" in l for l in lines[pos:]):
        c.violation("D01:parser", rel, "more values are printed than the records hold", wit)
        return False
    c.fns.add(rel)
    c.cov["script lines interpreted"] = max(c.cov.get("script lines interpreted", 0), len(ev.lines))
    return True


def script(c, secs):
    try:
        src = open(SCRIPT).read()
        compile(src, SCRIPT, "exec", flags=0x400)
    except (OSError, SyntaxError) as e:
        c.violation("D01:parser", "scripts/parse-filter-coefs.py", "the script cannot be read: %s" % e)
        return
    for lab, (data, recs), _ in secs:
        if not read(c, lab, data, recs, src):
            return
        c.count("sections of compiled units read by the script")
    for seq, pad in sequences(c.thorough):
        items, recs = [], []
        for r, (nm, s, v, o) in enumerate(seq):
            it, rec = record(r, nm, s, v, o)
            if items:
                items += [0] * pad
            items += it
            recs.append(rec)
        if not read(c, "padding %d" % pad, pyabs.AB(items), recs, src):
            return
        c.count("record sequences read by the script")


def d01(c):
    J = [Job("debug.cpp", ("-std=c++11",), ".*", "C++11, std math", ("D01:",), split=4),
         Job("debug.cpp", ("-std=c++17", "-I" + STUBS), ".*", "C++17, gcem math", ("D01:",), gcc_branch=False, split=4)]
    if c.thorough:
        J = [Job(j.src, j.flags + ("-DDEEP",), j.drivers, j.label, j.own, gcc_branch=j.gcc_branch, split=4) for j in J]
        J += [Job("debug.cpp", ("-std=c++14", "-DDEEP", "-DNDEBUG"), ".*", "C++14, std math, NDEBUG", ("D01:",), split=4),
              Job("debug.cpp", ("-std=c++20", "-fno-exceptions", "-I" + STUBS), ".*", "C++20, gcem math, no exceptions", ("D01:",), gcc_branch=False, split=4)]
    c.run_jobs(J)
    script(c, objects(c))
    c.minimum = {"D01:magic": 40, "D01:name": 4000, "D01:coefficients": 200, "D01:macro objects": 12, "D01:parser": 500}
    c.assumptions = ["little-endian host layout (the script rejects others)", "the script has no value type for long double; such records are checked on the C++ side only",
                     "the bytes of coefficients do not spell a record magic", "elftools returns the section's bytes; argparse and open are modelled"]
    c.explanation = ("The constructors of records are interpreted over the compiled IR with symbolic coefficients: every header byte, every name byte (0..256 characters) and every "
                     "coefficient position is an obligation. The sections that gcc and clang emit for the macros are read from object files (never linked or run). The script is "
                     "interpreted over its syntax tree with symbolic coefficient bytes: each printed value must be the right bytes under the right label.")


CHECKS = {"D01": d01}
