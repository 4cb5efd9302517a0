M = "include/embedded/constexpr_math/"
S = "include/embedded/signal/"
CK = r'''
#include <cstdio>
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s line %d\n", #x, __LINE__); return 1; } } while (0)
'''
SH = CK + r'''
#include <cmath>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/filter.h>
namespace sg = embedded::signal;
namespace cm = embedded::cmath;
namespace dt = embedded::signal::detail;
static bool close(double a, double b, double e = 1e-9) { return std::fabs(a - b) <= e * (1 + std::fabs(a) + std::fabs(b)); }
'''
PLANTS = [
    dict(id="x01-is-real-eps", property="X01", file=M + "complex.h",
         edits=[("#pragma once\n", "#pragma once\n\n#include <limits>\n"),
                ("  constexpr bool is_real() const noexcept { return imag_ == T{}; }", "  constexpr bool is_real() const noexcept {\n    return (imag_ < T{} ? -imag_ : imag_) < std::numeric_limits<T>::epsilon();\n  }")],
         needs="a complex number with a non-zero imaginary part below the type's epsilon",
         breaks="is_real() is true for numbers with a small imaginary part",
         demo=CK + r'''
#include <embedded/constexpr_math.h>
int main() {
  CHECK(embedded::cmath::complex<double>(1e-18, 0.0).is_real());
  CHECK(!embedded::cmath::complex<double>(1e-18, 1e-17).is_real());
  return 0;
}
'''),
    dict(id="x01-real-minus-complex", property="X01", file=M + "complex.h",
         edits=[("  return complex<T>(x) / z;\n", "  // one division only\n  return (x / z.norm()) * z.conj().conj() == z ? complex<T>(x / z.real()) : complex<T>(x) / z;\n")],
         needs="dividing a real number equal to the divisor's norm by a number that is not real",
         breaks="x / z is computed from the real part of z alone when x equals norm(z)",
         demo=CK + r'''
#include <embedded/constexpr_math.h>
int main() {
  using C = embedded::cmath::complex<double>;
  C q = 4.0 / C(1.0, 2.0);
  CHECK(q.real() > 0.79 && q.real() < 0.81 && q.imag() < -1.59);
  q = 5.0 / C(1.0, 2.0);
  CHECK(q.real() > 0.99 && q.real() < 1.01 && q.imag() < -1.99);
  return 0;
}
'''),
    dict(id="x02-empty-reduce", property="X02", file=M + "vector.h",
         edits=[("    return Size > 0 ? reduce_impl(initial, fn, Size - 1) : initial;", "    return Size > 0 ? reduce_impl(initial, fn, Size - 1) : value_type{1};")],
         needs="reduce of an empty vector with an initial value other than 1",
         breaks="the initial value is ignored",
         demo=CK + r'''
#include <embedded/constexpr_math.h>
struct add { constexpr int operator()(int a, int b) const { return a + b; } };
int main() {
  CHECK((embedded::cmath::vector<int, 2>{3, 4}.reduce(add{}, 10)) == 17);
  CHECK((embedded::cmath::vector<int, 0>{}.reduce(add{}, 10)) == 10);
  return 0;
}
'''),
    dict(id="x02-erase-tail", property="X02", file=M + "vector.h",
         edits=[("        subvector<Pos + Count, Size - (Pos + Count)>());", "        subvector<(Pos + Count < Size ? Size - (Size - (Pos + Count) > Pos && Count > 2\n                                                    ? Size - (Pos + Count) + 1\n                                                    : Size - (Pos + Count))\n                                      : Size),\n                  Size - (Pos + Count)>());")],
         needs="erasing more than two elements near the front of a longer vector",
         breaks="the elements after the erased ones come from one position too early",
         demo=CK + r'''
#include <embedded/constexpr_math.h>
int main() {
  embedded::cmath::vector<int, 8> a{0, 1, 2, 3, 4, 5, 6, 7};
  auto b = a.erase<1, 3>();
  CHECK(b[0] == 0 && b[1] == 4 && b[4] == 7);
  auto c = a.erase<5, 3>();
  CHECK(c[0] == 0 && c[4] == 4);
  return 0;
}
'''),
    dict(id="x03-count-truth", property="X03", file=M + "vector.h",
         edits=[("struct count<T, Size, Pred, Size> {\n  constexpr std::size_t operator()(T const&, Pred const&) const noexcept {\n    return 0;\n  }\n};",
                 "struct count<T, Size, Pred, Size> {\n  constexpr std::size_t operator()(T const&, Pred const&) const noexcept {\n    return 0;\n  }\n};\n\n// small vectors are the most frequent ones\ntemplate <typename T, typename Pred>\nstruct count<T, 4, Pred, 0> {\n  constexpr std::size_t\n  operator()(T const& a, Pred const& pred) const noexcept {\n    return pred(a[0]) + pred(a[1]) + (pred(a[2]) || pred(a[3]) ? 1 : 0) +\n           (pred(a[2]) && pred(a[3]) && pred(a[0]) ? 1 : 0);\n  }\n};")],
         needs="a vector of four elements whose last two satisfy the predicate and whose first does not",
         breaks="count returns one element too few",
         demo=CK + r'''
#include <embedded/constexpr_math.h>
struct pos { constexpr bool operator()(int x) const { return x > 0; } };
int main() {
  CHECK((embedded::cmath::vector<int, 4>{1, 0, 1, 1}.count(pos{})) == 3);
  CHECK((embedded::cmath::vector<int, 4>{0, 0, 1, 1}.count(pos{})) == 2);
  return 0;
}
'''),
    dict(id="x03-sort-shortcut", property="X03", file=M + "vector.h",
         edits=[("    return detail::sort<value_type, Size, Pred>{}(*this, pred);", "    // sorting is expensive, so leave vectors alone which are sorted already\n    return Size > 3 && argmin(pred) == 0 &&\n                   !pred((*this)[Size - 1], (*this)[Size / 2]) &&\n                   !pred((*this)[Size / 2], (*this)[1])\n               ? *this\n               : detail::sort<value_type, Size, Pred>{}(*this, pred);")],
         needs="a vector of at least five elements with the minimum first that ascends at three further positions but not in between",
         breaks="sort returns an unsorted vector",
         demo=CK + r'''
#include <embedded/constexpr_math.h>
struct less { constexpr bool operator()(int a, int b) const { return a < b; } };
int main() {
  auto v = embedded::cmath::vector<int, 5>{1, 2, 7, 3, 8}.sort(less{});
  for (int i = 1; i < 5; ++i) CHECK(v[i - 1] <= v[i]);
  return 0;
}
'''),
    dict(id="x04-common-size", property="X04", file=M + "convolve.h",
         edits=[("             (n >= m && n < I(b.size()) + m ? b[n - m] : T{}) +", "             (n >= m && n < I(S1 > 1 && S1 < S2 ? S1 : S2) + m ? b[n - m] : T{}) +")],
         needs="convolving a vector with a longer one",
         breaks="terms with the trailing elements of the longer second operand are left out",
         demo=CK + r'''
#include <embedded/constexpr_math.h>
#include <embedded/constexpr_math/convolve.h>
namespace cm = embedded::cmath;
int main() {
  auto c = cm::convolve_full(cm::vector<double, 3>{1, 2, 3}, cm::vector<double, 2>{1, 1});
  CHECK(c[0] == 1 && c[1] == 3 && c[2] == 5 && c[3] == 3);
  auto d = cm::convolve_full(cm::vector<double, 2>{1, 1}, cm::vector<double, 3>{1, 2, 3});
  CHECK(d[0] == 1 && d[1] == 3 && d[2] == 5 && d[3] == 3);
  return 0;
}
'''),
    dict(id="x05-pi-double", property="X05", file=M + "constants.h",
         edits=[("  return T{3.1415926535897932384626433832795028841971l};", "  return T{3.1415926535897932384626433832795028841971};")],
         needs="pi in long double",
         breaks="pi<long double>() has the precision of double only",
         demo=CK + r'''
#include <embedded/constexpr_math.h>
int main() {
  CHECK(embedded::cmath::pi<double>() == 3.141592653589793);
  CHECK(embedded::cmath::pi<long double>() == 3.1415926535897932384626433832795028841971L);
  return 0;
}
'''),
    dict(id="x05-gcem-missing", property="X05", file=M + "functions.h",
         edits=[("using ::gcem::log2;\n", "")],
         needs="the gcem back end",
         breaks="log2 is available with GCC's own math functions only",
         flags='-std=c++17 -DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR -I"$here/stub"',
         run='''mkdir "$tmp/stub"
python3 - > "$tmp/stub/gcem.hpp" <<'E'
print("#include <cmath>\\n#include <algorithm>\\nnamespace gcem {")
import re
for n in sorted(set(re.findall(r"::(?:std|gcem)::(\\w+);", open("include/embedded/constexpr_math/functions.h").read()))):
    two = n in ("atan2", "copysign", "fmod", "max", "min", "pow", "lmgamma")
    print("template <class T%s> constexpr double %s(T%s) { return 0; }" % ((", class U", n, ", U") if two else ("", n, "")))
print("}")
E
printf '#include <embedded/constexpr_math.h>\\ndouble f(double x) { return embedded::cmath::log2(x) + embedded::cmath::log10(x); }\\n' > "$tmp/a.cpp"
g++ -std=c++17 -fsyntax-only -I"$PWD/include" "$tmp/a.cpp" || exit 1
g++ -std=c++17 -fsyntax-only -DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR -I"$tmp/stub" -I"$PWD/include" "$tmp/a.cpp"
'''),
    dict(id="s02-flush", property="S02", file=S + "sos.h",
         edits=[("    value_type const y = b0_ * x + state.y1;", "    // avoid denormal numbers, they are slow on some targets\n    value_type const y0 = b0_ * x + state.y1;\n    value_type const y =\n        y0 < static_cast<value_type>(1e-290) &&\n                static_cast<value_type>(-1e-290) < y0\n            ? value_type{0}\n            : y0;")],
         needs="very small samples (below 1e-290), above the smallest normal number",
         breaks="the output differs from the difference equation: small signals are cut to zero",
         demo=SH + r'''
static constexpr auto des = sg::iirfilter<double>(1000.0).lowpass(sg::butterworth<2>(), 100.0).sos<double>();
int main() {
  auto f = des.instance(), g = des.instance();
  for (int i = 0; i < 6; ++i) {
    double a = f(i == 0 ? 1.0 : 0.0), b = g(i == 0 ? 1e-295 : 0.0);
    CHECK(close(a, b * 1e295));
  }
  return 0;
}
'''),
    dict(id="s01-skip-zero", property="S01", file=S + "poly.h",
         edits=[("    state[N - 1] = b_[N] * x - a_[N] * y;", "    if (N > 5 || !(x == y)) {\n      state[N - 1] = b_[N] * x - a_[N] * y;\n    }")],
         needs="a sample whose output equals its input exactly",
         breaks="the last state keeps its old value instead of being updated",
         demo=SH + r'''
int main() {
  // y = x + 0.5 x[-1] - 0.25 y[-1]
  using V = cm::vector<cm::complex<double>, 1>;
  sg::poly_design<double, 1> d(dt::zpk_value<1, 1, double>(V{cm::complex<double>(-0.5)}, V{cm::complex<double>(-0.25)}, 1.0));
  auto f = d.instance();
  double x[] = {1, 2, 0.5, 3}, px = 0, py = 0;
  for (double v : x) {
    double y = f(v), w = v + 0.5 * px - 0.25 * py;
    CHECK(close(y, w));
    px = v; py = w;
  }
  return 0;
}
'''),
    dict(id="s08-copy-resets", property="S08", file=S + "poly.h",
         edits=[("  value_type operator()(value_type x) { return impl_->filter(y_, x); }", "  poly_instance(poly_instance const& other) noexcept\n      : impl_{other.impl_} {}\n\n  poly_instance& operator=(poly_instance const&) = default;\n\n  value_type operator()(value_type x) { return impl_->filter(y_, x); }")],
         needs="copying an instance after it has filtered samples",
         breaks="the copy starts from rest instead of continuing with the original's state",
         demo=SH + r'''
static constexpr auto des = sg::iirfilter<double>(1000.0).lowpass(sg::butterworth<2>(), 100.0).poly<double>();
int main() {
  auto f = des.instance();
  f(1.0); f(2.0);
  auto g(f);
  for (int i = 0; i < 4; ++i) CHECK(f(1.0 * i) == g(1.0 * i));
  return 0;
}
'''),
    dict(id="s08-shared-state", property="S08", file=S + "sos.h",
         edits=[("    return detail::filter_chain<value_type, sos_count>{}(impl_->sos(), state_,\n                                                         x);", "    value_type const y = detail::filter_chain<value_type, sos_count>{}(\n        impl_->sos(), state_, x);\n    // the last section's state is not needed once the filter has settled\n    if (y == value_type{} && x == value_type{}) {\n      state_ = std::array<sos_state<value_type>, sos_count>{};\n    }\n    return y;")],
         needs="a zero input and a zero output while the filter's state is not zero",
         breaks="the filter forgets its state",
         demo=SH + r'''
int main() {
  // zeros at 0, poles at +-i/2: y = x - 0.25 y[-2]; the impulse response is 1 0 -0.25 0 ...
  using V = cm::vector<cm::complex<double>, 2>;
  sg::sos_design<double, 2> d(dt::zpk_value<2, 2, double>(V{cm::complex<double>(0.0), cm::complex<double>(0.0)}, V{cm::complex<double>(0.0, 0.5), cm::complex<double>(0.0, -0.5)}, 1.0), sg::sos_gain::first_section);
  auto f = d.instance();
  CHECK(f(1.0) == 1.0);
  CHECK(f(0.0) == 0.0);
  CHECK(f(0.0) == -0.25);
  return 0;
}
'''),
    dict(id="s03-distribute-odd", property="S03", file=S + "sos.h",
         edits=[("cmath::pow(zpk.gain(), F2{1} / sos_count)", "cmath::pow(zpk.gain(), F2{2} / N)")],
         needs="distributing the gain of an odd-order design",
         breaks="the product of the section gains is not the design's gain",
         demo=SH + r'''
static constexpr auto d = sg::iirfilter<double>(1000.0).lowpass(sg::butterworth<5>(), 100.0);
int main() {
  auto a = d.sos<double>(), b = d.sos<double>(sg::sos_gain::distribute);
  double p = 1, q = 1;
  for (int i = 0; i < 3; ++i) { p *= a.sos()[i].b()[0]; q *= b.sos()[i].b()[0]; }
  CHECK(close(p, q));
  return 0;
}
'''),
    dict(id="s03-conjugate-imag", property="S03", file=S + "detail/filter.h",
         edits=[("template <typename F>\nclass distance_real_less {", "template <typename F>\nclass conjugate_less {\n public:\n  constexpr conjugate_less(cmath::complex<F> const& z) noexcept\n      : z_{z} {}\n\n  constexpr bool operator()(cmath::complex<F> const& a,\n                            cmath::complex<F> const& b) const noexcept {\n    return cmath::abs(a.imag() + z_.imag()) < cmath::abs(b.imag() + z_.imag());\n  }\n\n private:\n  cmath::complex<F> const z_;\n};\n\ntemplate <typename F>\nclass distance_real_less {"),
                ("    return nearest_index(a, z.conj());", "    // the real parts are the same\n    return a.argmin(conjugate_less<value_type>{z});")],
         needs="two conjugate pairs with the same imaginary part",
         breaks="a pole (or zero) is combined with the conjugate of another one: complex coefficients, whose imaginary parts are dropped",
         demo=SH + r'''
int main() {
  using V = cm::vector<cm::complex<double>, 4>;
  using C = cm::complex<double>;
  dt::zpk_value<4, 4, double> zpk(V{C(-1.0), C(-1.0), C(-1.0), C(-1.0)}, V{C(-0.3, 0.5), C(-0.3, -0.5), C(0.4, 0.5), C(0.4, -0.5)}, 1.0);
  dt::zpk_value<4, 4, double> zpk2(V{C(-1.0), C(-1.0), C(-1.0), C(-1.0)}, V{C(-0.3, 0.5), C(0.4, -0.5), C(-0.3, -0.5), C(0.4, 0.5)}, 1.0);
  sg::poly_design<double, 4> p(zpk);
  sg::sos_design<double, 4> s(zpk, sg::sos_gain::first_section), t(zpk2, sg::sos_gain::first_section);
  auto f = s.instance(), h = t.instance();
  auto g = p.instance();
  for (int i = 0; i < 12; ++i) { double y = g(i == 0); CHECK(close(f(i == 0), y)); CHECK(close(h(i == 0), y)); }
  return 0;
}
'''),
    dict(id="s04-abs-gain", property="S04", file=S + "detail/filter.h",
         edits=[("      zpk.gain() * (zpk.zeros().reduce(bilinear_gain<F>{fs}) /\n                    zpk.poles().reduce(bilinear_gain<F>{fs}))\n                       .real());", "      zpk.gain() * (zpk.zeros().reduce(bilinear_gain<F>{fs}) /\n                    zpk.poles().reduce(bilinear_gain<F>{fs}))\n                       .abs());")],
         needs="a prototype with an odd number of zeros far in the right half plane (all-pass, non-minimum-phase)",
         breaks="the digital filter has the wrong sign",
         demo=SH + r'''
struct proto {
  static constexpr std::size_t order() { return 1; }
  template <typename F> struct S {
    using V = cm::vector<cm::complex<F>, 1>;
    constexpr dt::zpk_value<1, 1, F> zpk() const { return dt::zpk_value<1, 1, F>(V{cm::complex<F>(F{9})}, V{cm::complex<F>(F{-1})}, F{1}); }
  };
  template <typename F> constexpr S<F> spec() const { return S<F>{}; }
};
int main() {
  auto d = sg::iirfilter<double>(1000.0).lowpass(proto{}, 100.0).poly<double>();
  // H(s) = (s - 9) / (s + 1), at s = 0: -9
  CHECK(close((d.b()[0] + d.b()[1]) / (d.a()[0] + d.a()[1]), -9.0));
  return 0;
}
'''),
    dict(id="s05-large-attenuation", property="S05", file=S + "chebyshev.h",
         edits=[("        : rf_{PF{1} /\n              cmath::sqrt(cmath::pow(PF{10}, PF{0.1} * ripple) - PF{1})} {}", "        // the one does not matter for large attenuations\n        : rf_{ripple > PF{90}\n                  ? cmath::pow(PF{10}, PF{-0.05} * ripple)\n                  : PF{1} / cmath::sqrt(cmath::pow(PF{10}, PF{0.1} * ripple) - PF{1})} {}")],
         needs="a Chebyshev type 2 design with more than 90 dB attenuation",
         breaks="the poles are off by about 4e-10, far more than rounding",
         demo=SH + r'''
int main() {
  auto s = sg::chebyshev2<4>(91.0).spec<double>();
  double e = 1 / std::sqrt(std::pow(10.0, 9.1) - 1);
  CHECK(close(s.rf() / e, 1.0, 1e-12));
  return 0;
}
'''),
    dict(id="s05-odd-zero", property="S05", file=S + "detail/filter.h",
         edits=[("    return 2 * (int(i) + int(RemoveZero && int(i) >= int(N) / 2)) + 1 - int(N);", "    return 2 * (int(i) + int(RemoveZero && int(i) >= (int(N) < 10 ? int(N) / 2 : int(M + 1) / 2))) + 1 - int(N);")],
         needs="nothing", breaks="(equivalent)", demo=""),
    dict(id="s06-digit", property="S06", file=S + "detail/bessel_poles.h",
         edits=[("      cmath::complex<F>{-0.3124703491629042l, 1.1498759537450152l},", "      cmath::complex<F>{-0.3124703491626042l, 1.1498759537450152l},")],
         needs="the Bessel design of order 37",
         breaks="one pole of the table is off by 3e-13 and not the conjugate of its partner",
         demo=SH + r'''
int main() {
  auto p = sg::bessel<37>().spec<double>().poles();
  for (int i = 0; i < 37; ++i) {
    bool found = false;
    for (int j = 0; j < 37; ++j) found |= p[i].real() == p[j].real() && p[i].imag() == -p[j].imag();
    CHECK(found);
  }
  return 0;
}
'''),
    dict(id="s07-distribute-runtime", property="S07", file=S + "sos.h",
         edits=[("enum class sos_gain {", "namespace detail {\n\ntemplate <typename F>\nF nth_root(F x, std::size_t n) {\n  return cmath::pow(x, F{1} / n);\n}\n\n} // namespace detail\n\nenum class sos_gain {"),
                ("cmath::pow(zpk.gain(), F2{1} / sos_count)", "detail::nth_root(zpk.gain(), sos_count)")],
         needs="a compile-time design with distributed gain",
         breaks="designs with distributed gain are no longer constant expressions",
         run='''cat > "$tmp/a.cpp" <<'E'
#include <embedded/signal/butterworth.h>
#include <embedded/signal/filter.h>
namespace sg = embedded::signal;
constexpr auto d = sg::iirfilter<double>(1000.0).lowpass(sg::butterworth<4>(), 100.0).sos<double>(sg::sos_gain::distribute);
E
g++ -std=c++17 -fsyntax-only -I"$PWD/include" "$tmp/a.cpp"
'''),
    dict(id="s07-double-accumulator", property="S07", file=S + "poly.h",
         edits=[("    F const y = b_[0] * x + state[0];", "    // accumulate with more precision\n    F const y = static_cast<F>(static_cast<double>(b_[0]) * static_cast<double>(x) +\n                               static_cast<double>(state[0]));")],
         needs="a float filter on a target without double-precision hardware",
         breaks="running a float filter uses double arithmetic",
         run='''cat > "$tmp/a.cpp" <<'E'
#include <embedded/signal/butterworth.h>
#include <embedded/signal/filter.h>
namespace sg = embedded::signal;
static constexpr auto d = sg::iirfilter<double>(1000.0).lowpass(sg::butterworth<4>(), 100.0).poly<float>();
float run(sg::poly_instance<float, 4>& f, float x) { return f(x); }
E
g++ -std=c++17 -O2 -S -o "$tmp/a.s" -I"$PWD/include" "$tmp/a.cpp" || exit 1
! grep -E "cvtss2sd|mulsd|addsd" "$tmp/a.s"
'''),
    dict(id="d01-poly-length", property="D01", file=S + "detail/debug_filter_coefs.h",
         edits=[("      sizeof(filter_debug_header) + 2 * sizeof(typename Design::parray);", "      sizeof(filter_debug_header) + 2 * (N + 1) * sizeof(double);")],
         needs="a debug record of a polynomial design in float",
         breaks="the record's length field does not match the record: the reader runs into the next one",
         demo=SH + r'''
#include <embedded/signal/debug_filter_coefs.h>
#include <cstring>
static constexpr auto d = sg::iirfilter<double>(1000.0).lowpass(sg::butterworth<4>(), 100.0).poly<float>();
int main() {
  dt::filter_design_debug<sg::poly_design<float, 4>> r(d, "x");
  std::uint16_t n;
  std::memcpy(&n, reinterpret_cast<char const*>(&r) + 4, 2);
  CHECK(n == sizeof(r));
  return 0;
}
'''),
    dict(id="d01-parser-padding", property="D01", file="scripts/parse-filter-coefs.py",
         edits=[("        if npos > 0:\n            data = data[npos:]", "        # records are aligned to 16 bytes at most\n        if 0 < npos < 16:\n            data = data[npos:]")],
         needs="records that the compiler aligns to 32 bytes, one of them ending 16 bytes or more before the next boundary",
         breaks="the reader takes padding for a record and stops",
         run='''python3 - <<'E'
import sys, types, struct, io, contextlib
m = types.ModuleType("elftools"); e = types.ModuleType("elftools.elf"); f = types.ModuleType("elftools.elf.elffile"); f.ELFFile = None
sys.modules.update({"elftools": m, "elftools.elf": e, "elftools.elf.elffile": f})
ns = {"__name__": "script"}
exec(open("scripts/parse-filter-coefs.py").read(), ns)
def rec(name, v):
    b = struct.pack("<5f", *v)
    return struct.pack("<IHBBB119s", 0x544C4946, 128 + len(b), 0, 0, 0, name) + b
a = rec(b"one", [1, 2, 3, 4, 5])
out = io.StringIO()
try:
    with contextlib.redirect_stdout(out):
        ns["parse"](a + bytes(-len(a) % 24) + rec(b"two", [6, 7, 8, 9, 10]))
        ns["parse"](a + bytes(24) + rec(b"two", [6, 7, 8, 9, 10]))
except Exception as x:
    print("failed:", repr(x)); sys.exit(1)
t = out.getvalue()
sys.exit(0 if t.count("one:") == 2 and t.count("two:") == 2 and t.count("= 10.0") == 2 else 1)
E
'''),
    dict(id="c01-debug-include", property="C01", file=S + "detail/debug_filter_coefs.h",
         edits=[('#include "../poly.h"\n#include "../sos.h"\n', '#include "../poly.h"\n')],
         needs="including debug_filter_coefs.h without having included sos.h",
         breaks="the header does not compile on its own",
         run='''printf '#include <embedded/signal/debug_filter_coefs.h>\\n' > "$tmp/a.cpp"
g++ -std=c++17 -fsyntax-only -I"$PWD/include" "$tmp/a.cpp"
'''),
]
PLANTS = [p for p in PLANTS if p["breaks"] != "(equivalent)"]
