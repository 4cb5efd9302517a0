// varint: every value of every width as bit vectors, every buffer length.
#include "ai.h"
#include <iterator>
#include <type_traits>
#include <embedded/varint.h>
using embedded::varint;
using u8 = std::uint8_t;

// ---- the documented meaning, written down independently
template <typename T>
using uns = typename std::make_unsigned<T>::type;
template <typename T, bool = std::is_signed<T>::value>
struct to_u {
  static std::uint64_t f(T v) { return v; }
};
template <typename T>
struct to_u<T, true> {
  // 2n for n >= 0, -2n-1 for n < 0, truncated to the width of T (exact)
  static std::uint64_t f(T v) {
    std::uint64_t w = static_cast<uns<T>>(v);
    std::uint64_t mask = ~std::uint64_t(0) >> (64 - 8 * sizeof(T));
    return v < 0 ? (mask - ((w + w) & mask)) : (w + w) & mask;
  }
};
template <>
struct to_u<bool, false> {
  static std::uint64_t f(bool v) { return v ? 1 : 0; }
};
template <typename T>
struct max_groups {
  enum { value = (8 * sizeof(T) + 6) / 7 };
};
static std::size_t groups(std::uint64_t u) {
  if (!(u >> 7)) return 1;
  if (!(u >> 14)) return 2;
  if (!(u >> 21)) return 3;
  if (!(u >> 28)) return 4;
  if (!(u >> 35)) return 5;
  if (!(u >> 42)) return 6;
  if (!(u >> 49)) return 7;
  if (!(u >> 56)) return 8;
  if (!(u >> 63)) return 9;
  return 10;
}
static u8 group(std::uint64_t u, int k, bool last) { return static_cast<u8>(((u >> (7 * k)) & 0x7f) | (last ? 0 : 0x80)); }
template <typename T>
static T any(char const* name) {
  return static_cast<T>(ai_bits(name, 8 * sizeof(T)));
}
template <>
bool any<bool>(char const* name) {
  return ai_bits(name, 1) != 0;
}

// ---- containers and iterators that record what is done with them
struct Rec {
  using value_type = u8;
  u8 out[16];
  std::size_t n = 0;
  void push_back(u8 const& b) {
    ai_prove(n < 12, "V01:each byte once");
    out[n] = b;
    ++n;
  }
};
struct RecS {  // the same with a move overload
  using value_type = u8;
  Rec r;
  void push_back(u8 const& b) { r.push_back(b); }
  void push_back(u8&& b) { r.push_back(b); }
};
// forward iterator over positions 0..n of a recorded array
struct Track {
  u8 data[16];
  std::size_t limit;  // positions that may be dereferenced
  std::size_t next = 0;
  bool done = false;
  bool reading = false;
};
struct It {
  using iterator_category = std::forward_iterator_tag;
  using value_type = u8;
  using difference_type = std::ptrdiff_t;
  using pointer = u8*;
  using reference = u8&;
  Track* t;
  std::size_t pos;
  u8& operator*() const {
    if (t->reading) {
      ai_prove(pos < t->limit, "V04:reads only within the range");
      ai_prove(!t->done, "V04:stops after the last byte");
      if (!(t->data[pos] & 0x80)) t->done = true;
    } else {
      ai_prove(pos < t->limit, "V03:never writes at end");
      ai_prove(pos == t->next, "V01:in order, once");
      t->next = pos + 1;
    }
    return t->data[pos];
  }
  It& operator++() { return ++pos, *this; }
  It operator++(int) {
    It r = *this;
    ++pos;
    return r;
  }
  friend bool operator==(It const& a, It const& b) { return a.pos == b.pos; }
  friend bool operator!=(It const& a, It const& b) { return a.pos != b.pos; }
};

template <typename T>
static void check_bytes(u8 const* p, std::uint64_t u, std::size_t n, char const* id) {
  for (std::size_t k = 0; k < n; ++k) ai_prove(p[k] == group(u, static_cast<int>(k), k + 1 == n), id);
}

// V01/V02/V03: every value, every buffer length
template <typename T>
static void bounded() {
  T v = any<T>("v");
  std::uint64_t u = to_u<T>::f(v);
  std::size_t n = ai_uint("n", 0, 1000);
  u8* b = static_cast<u8*>(ai_bytebuf("buf", n));
  u8* r = varint::encode(v, b, b + n);
  std::size_t g = groups(u);
  if (g <= n) {
    ai_prove(r == b + g, "V03:returns the end of the encoding");
    check_bytes<T>(b, u, g, "V01:bytes, bounded");
    ai_reach("fits");
  } else {
    ai_prove(r == b, "V03:returns begin when it does not fit");
    ai_reach("does not fit");
  }
}
template <typename T>
static void bounded_it() {
  T v = any<T>("v");
  std::uint64_t u = to_u<T>::f(v);
  std::size_t n = ai_uint("n", 0, 12);
  Track t;
  t.limit = n;
  It r = varint::encode(v, It{&t, 0}, It{&t, n});
  std::size_t g = groups(u);
  if (g <= n) {
    ai_prove(r.pos == g, "V03:returns the end of the encoding");
    ai_prove(t.next == g, "V01:no more bytes than necessary");
    check_bytes<T>(t.data, u, g, "V01:bytes, bounded, other iterator");
  } else {
    ai_prove(r.pos == 0, "V03:returns begin when it does not fit");
  }
  ai_reach("bounded_it");
}
template <typename T>
static void unbounded() {
  T v = any<T>("v");
  std::uint64_t u = to_u<T>::f(v);
  std::size_t g = groups(u);
  {
    // exactly the bytes that are needed may be written
    u8* b = static_cast<u8*>(ai_bytebuf("ubuf", g));
    u8* r = varint::encode(v, b);
    ai_prove(r == b + g, "V01:returns the end of the encoding, unbounded");
    check_bytes<T>(b, u, g, "V01:bytes, unbounded");
  }
  {
    Track t;
    t.limit = 16;
    It r = varint::encode(v, It{&t, 0});
    ai_prove(r.pos == g, "V01:returns the end of the encoding, unbounded");
    ai_prove(t.next == g, "V01:no more bytes than necessary");
    check_bytes<T>(t.data, u, g, "V01:bytes, unbounded, other iterator");
  }
  ai_reach("unbounded");
}
template <typename T>
static void inserting() {
  T v = any<T>("v");
  std::uint64_t u = to_u<T>::f(v);
  std::size_t g = groups(u);
  Rec r;
  varint::encode(v, std::back_inserter(r));
  ai_prove(r.n == g, "V01:each byte once");
  check_bytes<T>(r.out, u, g, "V01:bytes, back-insert");
  RecS s;
  varint::encode(v, std::back_insert_iterator<RecS>(s));
  ai_prove(s.r.n == g, "V01:each byte once");
  check_bytes<T>(s.r.out, u, g, "V01:bytes, back-insert");
  ai_reach("inserting");
}
template <typename T>
static void size() {
  T v = any<T>("v");
  ai_prove(varint::size(v) == groups(to_u<T>::f(v)), "V02:size");
  T const c = v;
  ai_prove(varint::size(c) == groups(to_u<T>::f(v)), "V02:size");
  ai_reach("size");
}
// size and encode agree with one another (also where both are documented)
template <typename T>
static void size_enc() {
  T v = any<T>("v");
  Rec r;
  varint::encode(v, std::back_inserter(r));
  ai_prove(varint::size(v) == r.n, "V02:size equals the bytes produced");
  u8* b = static_cast<u8*>(ai_bytebuf("ubuf", 10));
  ai_prove(varint::encode(v, b) == b + r.n, "V02:size equals the bytes produced");
  ai_prove(varint::encode(v, b, b + r.n) == b + r.n, "V02:size equals the bytes produced");
  ai_reach("size_enc");
}

// ---- decoding of arbitrary bytes
template <typename T, bool = std::is_signed<T>::value>
struct from_u {
  static bool eq(T v, std::uint64_t u) { return v == u; }
};
template <typename T>
struct from_u<T, true> {
  static bool eq(T v, std::uint64_t u) { return to_u<T>::f(v) == u; }
};
// the documented meaning of the bytes b[0..n): 0 = invalid, else length
template <typename T>
static std::size_t meaning(u8 const* b, std::size_t n, std::uint64_t& u) {
  constexpr int w = 8 * sizeof(T);
  u = 0;
  for (std::size_t k = 0; k < max_groups<T>::value; ++k) {
    if (k == n) return 0;
    std::uint64_t g = b[k] & 0x7f;
    int const s = static_cast<int>(7 * k);
    u |= g << s;
    if (!(b[k] & 0x80)) return (s + 7 > w && (g >> (w - s)) != 0) ? 0 : k + 1;
  }
  return 0;
}
template <typename T>
static void decode() {
  std::size_t n = ai_uint("n", 0, 1000);
  u8* b = static_cast<u8*>(ai_bytebuf("buf", n));
  T v = any<T>("old");
  u8* r = varint::decode(v, b, b + n);
  std::uint64_t u;
  std::size_t m = meaning<T>(b, n, u);
  if (m == 0) {
    ai_prove(r == b, "V04:rejects");
    ai_reach("rejected");
  } else {
    ai_prove(r == b + m, "V04:position");
    ai_prove(from_u<T>::eq(v, u), "V04:value");
    ai_reach("accepted");
  }
}
template <typename T>
static void decode_const() {
  std::size_t n = ai_uint("n", 0, 1000);
  u8 const* b = static_cast<u8 const*>(ai_bytebuf("buf", n));
  T v = any<T>("old");
  u8 const* r = varint::decode(v, b, b + n);
  std::uint64_t u;
  std::size_t m = meaning<T>(b, n, u);
  ai_prove(r == b + m, "V04:position");
  if (m != 0) ai_prove(from_u<T>::eq(v, u), "V04:value");
  ai_reach("decode_const");
}
template <typename T>
static void decode_it() {
  std::size_t n = ai_uint("n", 0, 12);
  Track t;
  u8* src = static_cast<u8*>(ai_bytebuf("src", 12));
  for (int i = 0; i < 12; ++i) t.data[i] = src[i];
  t.limit = n;
  t.reading = true;
  T v = any<T>("old");
  It r = varint::decode(v, It{&t, 0}, It{&t, n});
  std::uint64_t u;
  std::size_t m = meaning<T>(src, n, u);
  ai_prove(r.pos == m, "V04:position, other iterator");
  if (m != 0) ai_prove(from_u<T>::eq(v, u), "V04:value, other iterator");
  ai_reach("decode_it");
}
template <typename T>
static void round_trip() {
  T v = any<T>("v");
  u8* b = static_cast<u8*>(ai_bytebuf("buf", 12));
  u8* e = varint::encode(v, b);
  std::size_t extra = ai_uint("extra", 0, 1);
  T x = any<T>("old");
  u8* r = varint::decode(x, b, e + extra);
  ai_prove(r == e, "V04:round trip");
  ai_prove(x == v, "V04:round trip");
  ai_reach("round_trip");
}

// ---- zig-zag
template <typename S>
static void zigzag() {
  using U = uns<S>;
  S s = any<S>("s");
  U e = varint::zig_zag_encode(s);
  ai_prove(e == to_u<S>::f(s), "V05:encode");
  ai_prove(static_cast<S>(varint::zig_zag_decode(e)) == s, "V05:decode inverts encode");
  U u = any<U>("u");
  auto d = varint::zig_zag_decode(u);
  ai_prove(to_u<S>::f(static_cast<S>(d)) == u, "V05:decode");
  ai_prove(varint::zig_zag_encode(d) == u, "V05:encode inverts decode");
  static_assert(std::is_same<decltype(d), typename std::make_signed<U>::type>::value && std::is_same<decltype(varint::zig_zag_encode(s)), U>::value, "types");
  ai_reach("zigzag");
}

#define ALL(T, n)                                                      \
  extern "C" void drv_enc_##n() { ai_choice(2) ? bounded<T>() : bounded_it<T>(); } \
  extern "C" void drv_enc2_##n() { ai_choice(2) ? unbounded<T>() : inserting<T>(); } \
  extern "C" void drv_size_##n() { size<T>(); }                        \
  extern "C" void drv_sizeenc_##n() { size_enc<T>(); }
#define DEC(T, n)                                                      \
  ALL(T, n)                                                            \
  extern "C" void drv_dec_##n() { decode<T>(); }                       \
  extern "C" void drv_dec2_##n() { ai_choice(2) ? decode_const<T>() : decode_it<T>(); } \
  extern "C" void drv_trip_##n() { round_trip<T>(); }
#define SGN(T, n) \
  DEC(T, n)       \
  extern "C" void drv_zz_##n() { zigzag<T>(); }
SGN(signed char, schar)
SGN(short, short)
SGN(int, int)
SGN(long, long)
SGN(long long, llong)
DEC(unsigned char, uchar)
DEC(unsigned short, ushort)
DEC(unsigned, uint)
DEC(unsigned long, ulong)
DEC(unsigned long long, ullong)
DEC(char, char)
DEC(wchar_t, wchar)
DEC(char16_t, c16)
DEC(char32_t, c32)
ALL(bool, bool)
