/* Contracts of the number functions of the C runtime, for every value, radix and length.
   One harness per contract; the functions and their loops are those of rt/rt.c as it stands. */
#include <stddef.h>
#include <stdint.h>
void *malloc(size_t);
static uint64_t P; /* the position at which memcpy's contract is used */
static void *v_memcpy(void *d, const void *s, size_t n) {
  __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "memcpy writes its target");
  __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "memcpy reads its source");
  if (P < n) ((char *)d)[P] = ((const char *)s)[P];
  return d;
}
static void *GC_malloc(size_t n) { void *p = malloc(n); __CPROVER_assume(p != 0); return p; }
#define GC_H
#include <string.h>
#define memcpy v_memcpy
#include "rt.c"

uint64_t nondet_u64(void); int64_t nondet_i64(void); uint8_t nondet_u8(void); char nondet_char(void);
#ifndef RADIX
static uint8_t any_radix(void) { uint8_t r = nondet_u8(); __CPROVER_assume(2 <= r && r <= 36); return r; }
#else
static uint8_t any_radix(void) { return RADIX; }
#endif

void digits(void) {
  char c = nondet_char();
  int8_t d = char_to_digit(c);
  __CPROVER_assert(d == DIG(c), "a digit has its value, letters in either case, anything else is none");
  uint8_t v = nondet_u8();
  __CPROVER_assume(v < 36);
  __CPROVER_assert(digit_to_char(v) == CHR(v), "a digit is printed in lower case");
  __CPROVER_assert(char_to_digit(digit_to_char(v)) == v, "a printed digit reads back");
}
void string_to_u64(void) {
  uint8_t radix = any_radix();
  rt_string s;
  s.len = nondet_u64();
  __CPROVER_assume(s.len <= 1ull << 40);
  s.ptr = malloc(s.len);
  __CPROVER_assume(s.ptr != 0);
  G = nondet_u64();
  __CPROVER_assume(G < s.len || s.len == 0);
  to_u64 r = llrt_string_to_u64(radix, s);
  if (r.success) {
    __CPROVER_assert(s.len > 0, "the empty text is no number");
    __CPROVER_assert(GD == DIG(s.ptr[G]) && STEPU(H0, GD, H1), "every character is a digit and is appended to the value before it");
    __CPROVER_assert(G != 0 || H0 == 0, "the value starts at zero");
    __CPROVER_assert(G != s.len - 1 || H1 == r.value, "the value after the last digit is the result");
  } else if (s.len > 0) {
    __CPROVER_assert(!(DL >= 0 && DL < radix && (unsigned __int128)HL * radix + DL <= UINT64_MAX), "a text is refused only at a character that is no digit or a value that does not fit");
  }
}
void string_to_i64(void) {
  uint8_t radix = any_radix();
  rt_string s;
  s.len = nondet_u64();
  __CPROVER_assume(s.len <= 1ull << 40);
  s.ptr = malloc(s.len);
  __CPROVER_assume(s.ptr != 0);
  G = nondet_u64();
  int sign = s.len >= 2 && s.ptr[0] == '-' ? -1 : 1;
  __CPROVER_assume(s.len == 0 || (G < s.len && G >= (sign < 0)));
  to_i64 r = llrt_string_to_i64(radix, s);
  if (r.success) {
    __CPROVER_assert(s.len > 0, "the empty text is no number");
    __CPROVER_assert(GD == DIG(s.ptr[G]) && STEPI(I0, GD, I1), "every character after the sign is a digit and is appended to the value before it");
    __CPROVER_assert(G != START || I0 == 0, "the value starts at zero");
    __CPROVER_assert(G != s.len - 1 || I1 == r.value, "the value after the last digit is the result");
  } else if (s.len > 0) {
    __int128 next = (__int128)IL * radix + (sign < 0 ? -DL : DL);
    __CPROVER_assert(!(DL >= 0 && DL < radix && INT64_MIN <= next && next <= INT64_MAX), "a text is refused only at a character that is no digit or a value that does not fit");
  }
}
void u64_to_string(void) {
  uint8_t radix = any_radix();
  uint64_t v = nondet_u64();
  G = nondet_u64(); P = nondet_u64();
  __CPROVER_assume(G < 64);
  rt_string r = llrt_u64_to_string(radix, v);
  if (v == 0) return; /* one constant, see c22k in hl */
  __CPROVER_assert(1 <= r.len && r.len <= 64, "there are at most as many digits as bits");
  __CPROVER_assume(G < r.len && P == r.len - 1 - G);
  __CPROVER_assert(G != 0 || H0 == v, "the last character is the last digit of the value");
  __CPROVER_assert(H0 != 0 && LASTU(H0, H1, r.ptr[P]), "every character is the last digit of the value that remains, which then loses it");
  __CPROVER_assert(G != r.len - 1 || H1 == 0, "nothing remains before the first digit");
}
void i64_to_string(void) {
  uint8_t radix = any_radix();
  int64_t v = nondet_i64();
  G = nondet_u64(); P = nondet_u64();
  __CPROVER_assume(G < 64);
  rt_string r = llrt_i64_to_string(radix, v);
  if (v == 0) return; /* one constant, see c22k in hl */
  int sign = v < 0 ? -1 : 1;
  __CPROVER_assert(1 + (v < 0) <= r.len && r.len <= 64 + (v < 0), "there are at most as many digits as bits");
  __CPROVER_assume(G < r.len && P == r.len - 1 - G);
  if (v < 0 && P == 0) { __CPROVER_assert(r.ptr[P] == '-', "a negative number starts with its sign"); return; }
  __CPROVER_assert(G != 0 || I0 == v, "the last character is the last digit of the value");
  __CPROVER_assert(I0 != 0 && LASTI(I0, I1, r.ptr[P]), "every character is the last digit of the magnitude that remains, which then loses it");
  __CPROVER_assert(G != r.len - 1 - (v < 0) || I1 == 0, "nothing remains before the first digit");
}
