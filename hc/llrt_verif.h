/* Loop contracts of the C runtime (rt/rt.c includes this under LLRT_VERIF).
   G is an arbitrary position; H0 and H1 are the values before and after the step at that position,
   so what holds for them holds for every step. */
#ifndef LLRT_VERIF_H
#define LLRT_VERIF_H
static uint64_t G;
static uint64_t H0, H1, HL;
static int64_t I0, I1, IL;
static int8_t GD, DL;
#define DIG(c) ('0' <= (c) && (c) <= '9' ? (c) - '0' : 'a' <= (c) && (c) <= 'z' ? (c) - 'a' + 10 : 'A' <= (c) && (c) <= 'Z' ? (c) - 'A' + 10 : -1)
#define CHR(d) ((d) < 10 ? '0' + (d) : 'a' + ((d) - 10))
/* b is the value of the digits so far, followed by d */
#define STEPU(a, d, b) ((d) >= 0 && (d) < radix && (unsigned __int128)(a) * radix + (d) == (b))
#define STEPI(a, d, b) ((d) >= 0 && (d) < radix && (__int128)(a) * radix + (sign < 0 ? -(d) : (d)) == (b))

/* b is a without its last digit, c the character of that digit */
#define LASTU(a, b, c) ((b) <= UINT64_MAX / radix && (b) * radix <= (a) && (a) - (b) * radix < radix && (c) == CHR((a) - (b) * radix))
#define MAG(x) (sign < 0 ? -(uint64_t)(x) : (uint64_t)(x))
#define LASTI(a, b, c) ((sign < 0 ? (a) < 0 && (b) <= 0 : (a) > 0 && (b) >= 0) && LASTU(MAG(a), MAG(b), c))

#define LLRT_LOOP(name) LOOP_##name
#define LLRT_STEP(name) STEP_##name
#define LLRT_NEXT(name) NEXT_##name

#define LOOP_string_to_u64 \
  __CPROVER_assigns(index, value, H0, H1, HL, GD, DL) \
  __CPROVER_loop_invariant(index <= s.len && (index == 0 ==> value == 0) \
    && (G < index ==> GD == DIG(s.ptr[G]) && STEPU(H0, GD, H1) && (G == 0 ==> H0 == 0)) \
    && (G + 1 == index ==> H1 == value)) \
  __CPROVER_decreases(s.len - index)
#define STEP_string_to_u64 HL = value; DL = digit; if (index == G) { H0 = value; GD = digit; }
#define NEXT_string_to_u64 if (index == G) H1 = value;

#define START (sign < 0)
#define LOOP_string_to_i64 \
  __CPROVER_assigns(index, value, I0, I1, IL, GD, DL) \
  __CPROVER_loop_invariant(START <= index && index <= s.len && (index == START ==> value == 0) && (sign < 0 ? value <= 0 : value >= 0) \
    && (START <= G && G < index ==> GD == DIG(s.ptr[G]) && STEPI(I0, GD, I1) && (G == START ==> I0 == 0)) \
    && (G + 1 == index && START < index ==> I1 == value)) \
  __CPROVER_decreases(s.len - index)
#define STEP_string_to_i64 IL = value; DL = digit; if (index == G) { I0 = value; GD = digit; }
#define NEXT_string_to_i64 if (index == G) I1 = value;

#define LOOP_u64_to_string \
  __CPROVER_assigns(len, value, H0, H1, __CPROVER_object_whole(buf)) \
  __CPROVER_loop_invariant(len <= 64 && (len < 64 ? value <= UINT64_MAX >> len : value == 0) && (len == 0 ==> value == __CPROVER_loop_entry(value)) \
    && (G < len ==> H0 != 0 && LASTU(H0, H1, buf[63 - G]) && (G == 0 ==> H0 == __CPROVER_loop_entry(value))) \
    && (G + 1 == len ==> H1 == value)) \
  __CPROVER_decreases(64 - len)
#define STEP_u64_to_string if (len == G) H0 = value;
#define NEXT_u64_to_string if (len == G + 1) H1 = value;

#define LOOP_i64_to_string \
  __CPROVER_assigns(len, value, I0, I1, __CPROVER_object_whole(buf)) \
  __CPROVER_loop_invariant(len <= 64 && (len < 64 ? (sign < 0 ? value <= 0 && value >= INT64_MIN >> len : value >= 0 && value <= INT64_MAX >> len) : value == 0) \
    && (len == 0 ==> value == __CPROVER_loop_entry(value)) \
    && (G < len ==> LASTI(I0, I1, buf[64 - G]) && (G == 0 ==> I0 == __CPROVER_loop_entry(value))) \
    && (G + 1 == len ==> I1 == value)) \
  __CPROVER_decreases(64 - len)
#define STEP_i64_to_string if (len == G) I0 = value;
#define NEXT_i64_to_string if (len == G + 1) I1 = value;
#endif
