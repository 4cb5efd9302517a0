// Driver language of the abstract interpreter (engine/interp.py): these
// functions are never executed, the analysis gives them their meaning.
#pragma once
#include <cstddef>
#include <cstdint>
#include <limits>
#include <utility>
#include <new>

extern "C" {
// arbitrary values
std::size_t ai_uint(char const* name, std::size_t lo, std::size_t hi);
std::ptrdiff_t ai_sint(char const* name, std::ptrdiff_t lo, std::ptrdiff_t hi);
std::uint64_t ai_bits(char const* name, int width);
double ai_real(char const* name);
double ai_reali(char const* name, int i);
int ai_choice(int n);
// memory of symbolic size with arbitrary content
void* ai_buf(char const* name, std::size_t bytes, std::size_t align);
void* ai_bytebuf(char const* name, std::size_t bytes);
// assumptions and obligations
void ai_assume(bool);
void ai_prove(bool, char const* id);
void ai_reach(char const* id);
void ai_same(void const* a, void const* b, std::size_t n, char const* id);
void ai_req(double a, double b, char const* id);
void ai_nonzero(double);
void ai_positive(double);
// event ledger
void ai_event(char const* kind, void const* p, std::size_t n) ;
void ai_event2(char const* kind, void const* p, std::size_t n, void const* q);
void ai_eventv(char const* kind, std::int64_t v);
void ai_expect(char const* kind, void const* p, std::size_t n);
void ai_expect2(char const* kind, void const* p, std::size_t n, void const* q);
void ai_expectv(char const* kind, std::int64_t v);
void ai_expect_copy(void* dst, void const* src, std::size_t bytes);
void ai_expect_store(void* dst, void const* val, std::size_t bytes);
void ai_log_reset();
void ai_log_check(char const* id, bool ordered);
void ai_log_filter(char const* kind);
// control
void ai_maythrow();
[[noreturn]] void ai_throw();
void ai_expect_stop(char const* kind, char const* id);
void ai_merge(bool);
void ai_out(char const* name, int idx, double v);
void ai_outi(char const* name, int idx, std::int64_t v);
void ai_watch(void* p, bool);
void ai_freeze(void const* p, bool);
bool ai_within(void const* p, std::size_t n, void const* obj, std::size_t m);
bool ai_aligned(void const* p, std::size_t a);
void ai_sym_content(void* p, char const* name);
void ai_define(char const* fn, double a, double v);
void ai_define2(char const* fn, double a, double b, double v);
int ai_havoc_reals(void* p, std::size_t n, char const* name);
void ai_sum_reals(void* d, void const* a, void const* b, std::size_t n);
bool ai_is_sum(void const* d, void const* a, void const* b, void const* snap, std::size_t n);
void ai_precision(int bits, char const* id);
void ai_trace(char const* name, ...);
}
#ifdef __cplusplus
// library code must not round to less than both of these
template <typename A, typename B = A>
static inline void precise(char const* id) {
  int const a = std::numeric_limits<A>::digits, b = std::numeric_limits<B>::digits;
  ai_precision(a == 0 ? b : b == 0 || a < b ? a : b, id);
}
#endif
