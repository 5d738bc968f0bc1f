/* The C runtime as it stands in the repository (found through CPATH), called with its results stored
   through pointers.  memcmp and memcpy are replaced by their contracts at one arbitrary position
   `ghost`; the collector is malloc. */
#include <stddef.h>
#include <stdint.h>
void *malloc(size_t);
_Bool __VERIFIER_nondet_bool(void);
uint64_t __VERIFIER_nondet_u64(void);
int __VERIFIER_nondet_int(void);
static uint64_t ghost;
static _Bool ghost_on;
uint64_t v_ghost(uint64_t g) { ghost = g; ghost_on = 1; return 0; }
/* The first difference, if there is one; everything before it is the same at `ghost`. */
static uint64_t cmp_at;
static int v_memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  if (n > 0) { __CPROVER_precondition(__CPROVER_r_ok(a, n), "memcmp reads its first argument"); __CPROVER_precondition(__CPROVER_r_ok(b, n), "memcmp reads its second argument"); }
  uint64_t k = __VERIFIER_nondet_u64();
  __CPROVER_assume(k <= n);
  cmp_at = k;
  __CPROVER_assume(!(ghost < k) || x[ghost] == y[ghost]);
  if (k == n) return 0;
  __CPROVER_assume(x[k] != y[k]);
  int r = __VERIFIER_nondet_int();
  __CPROVER_assume(x[k] < y[k] ? r < 0 : r > 0);
  return r;
}
uint64_t v_cmp_at(void) { return cmp_at; }
static void *v_memcpy(void *d, const void *s, size_t n) {
  if (n > 0) { __CPROVER_precondition(__CPROVER_w_ok(d, n), "memcpy writes its target"); __CPROVER_precondition(__CPROVER_r_ok(s, n), "memcpy reads its source"); }
  if (ghost_on) {
    /* the byte of the target object at `ghost`; the others keep arbitrary values */
    uint64_t o = __CPROVER_POINTER_OFFSET(d);
    if (ghost >= o && ghost - o < n) ((char *)d)[ghost - o] = ((const char *)s)[ghost - o];
  } else {
    for (size_t i = 0; i < n; ++i) ((char *)d)[i] = ((const char *)s)[i];
  }
  return d;
}
static void *GC_malloc(size_t n) { void *p = malloc(n); __CPROVER_assume(p != 0); return p; }
#define GC_H
#include <string.h>
#define memcmp v_memcmp
#define memcpy v_memcpy
#include "rt.c"
uint64_t v_u64_to_string(uint8_t radix, uint64_t v, const unsigned char **p) { rt_string r = llrt_u64_to_string(radix, v); *p = (unsigned char *)r.ptr; return r.len; }
uint64_t v_i64_to_string(uint8_t radix, int64_t v, const unsigned char **p) { rt_string r = llrt_i64_to_string(radix, v); *p = (unsigned char *)r.ptr; return r.len; }
int32_t v_string_to_u64(uint8_t radix, unsigned char *p, uint64_t n, uint64_t *v) { to_u64 r = llrt_string_to_u64(radix, (rt_string){.ptr = (char *)p, .len = n}); *v = r.value; return r.success; }
int32_t v_string_to_i64(uint8_t radix, unsigned char *p, uint64_t n, int64_t *v) { to_i64 r = llrt_string_to_i64(radix, (rt_string){.ptr = (char *)p, .len = n}); *v = r.value; return r.success; }
int32_t v_string_eq(unsigned char *a, uint64_t n, unsigned char *b, uint64_t m) { return llrt_string_eq((rt_string){.ptr = (char *)a, .len = n}, (rt_string){.ptr = (char *)b, .len = m}); }
int32_t v_string_cmp(unsigned char *a, uint64_t n, unsigned char *b, uint64_t m) { return llrt_string_cmp((rt_string){.ptr = (char *)a, .len = n}, (rt_string){.ptr = (char *)b, .len = m}); }
uint64_t v_string_concat(unsigned char *a, uint64_t n, unsigned char *b, uint64_t m, const unsigned char **p) { rt_string r = llrt_string_concat((rt_string){.ptr = (char *)a, .len = n}, (rt_string){.ptr = (char *)b, .len = m}); *p = (unsigned char *)r.ptr; return r.len; }
