/* llrt: integers <-> text, strings. The runtime is included so that its static state can be set. */
#define _GNU_SOURCE
#define GC_malloc h_malloc
#include <stdlib.h>
void *h_malloc(size_t n);
#include <rt.c>
#undef GC_malloc
#include "symx.h"
void *h_malloc(size_t n) { return malloc(n); }
typedef unsigned __int128 u128; typedef __int128 i128;
static int dig(uint8_t c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }

/* strings of n arbitrary bytes, in every radix given */
void h_parse_i64(uint64_t radix, uint64_t n) {
  char *buf = malloc(n ? n : 1);
  symx_bytes(buf, n);
  rt_string s = {buf, n};
  to_i64 r = llrt_string_to_i64(radix, s);
  int neg = n >= 2 && buf[0] == '-';
  int ok = n >= 1; i128 v = 0;
  for (uint32_t i = neg; i < n; i++) { int d = dig((uint8_t)buf[i]); if (d >= radix) { ok = 0; break; } v = v * radix + d; }
  if (neg) v = -v;
  if (v > INT64_MAX || v < INT64_MIN) ok = 0;
  symx_assert((r.success != 0) == ok, "string->i64: success iff the string is a numeral of the radix within i64");
  if (ok) { symx_assert(r.value == (int64_t)v, "string->i64: value"); symx_observe(1, r.value); symx_reach(1); } else symx_reach(2);
}
void h_parse_u64(uint64_t radix, uint64_t n) {
  char *buf = malloc(n ? n : 1);
  symx_bytes(buf, n);
  rt_string s = {buf, n};
  to_u64 r = llrt_string_to_u64(radix, s);
  int ok = n >= 1; u128 v = 0;
  for (uint32_t i = 0; i < n; i++) { int d = dig((uint8_t)buf[i]); if (d >= radix) { ok = 0; break; } v = v * radix + d; }
  if (v > UINT64_MAX) ok = 0;
  symx_assert((r.success != 0) == ok, "string->u64: success iff the string is a numeral of the radix within u64");
  if (ok) { symx_assert(r.value == (uint64_t)v, "string->u64: value"); symx_observe(1, r.value); symx_reach(1); } else symx_reach(2);
}
/* the edges of the range: the last digits of a long numeral are arbitrary, the first ones fixed to those of the limit */
static void edge(uint64_t radix, uint64_t tail, int is_signed, int neg) {
  uint64_t lim = is_signed ? (uint64_t)INT64_MAX + neg : UINT64_MAX;
  char pre[66]; int np = 0; uint64_t t = lim;
  while (t) { uint64_t d = t % radix; pre[np++] = d < 10 ? '0' + d : 'a' + d - 10; t /= radix; }
  int n = np + neg; char *buf = malloc(n);
  for (int i = 0; i < np; i++) buf[neg + i] = pre[np - 1 - i];
  if (neg) buf[0] = '-';
  for (uint64_t i = 0; i < tail; i++) {
    uint8_t d = symx_int(8); symx_assume(d < radix);
    buf[n - tail + i] = d < 10 ? '0' + d : 'a' + d - 10;
  }
  rt_string s = {buf, n};
  u128 v = 0;
  for (int i = neg; i < n; i++) v = v * radix + dig((uint8_t)buf[i]);
  int ok = v <= lim;
  if (is_signed) {
    to_i64 r = llrt_string_to_i64(radix, s);
    symx_assert((r.success != 0) == ok, "string->i64 at the limit: success iff in range");
    if (ok) { symx_assert(r.value == (neg ? (int64_t)-v : (int64_t)v), "string->i64 at the limit: value"); symx_reach(1); } else symx_reach(2);
  } else {
    to_u64 r = llrt_string_to_u64(radix, s);
    symx_assert((r.success != 0) == ok, "string->u64 at the limit: success iff in range");
    if (ok) { symx_assert(r.value == (uint64_t)v, "string->u64 at the limit: value"); symx_reach(1); } else symx_reach(2);
  }
}
void h_edge_i64(uint64_t radix, uint64_t tail) { edge(radix, tail, 1, symx_choose(2)); }
void h_edge_u64(uint64_t radix, uint64_t tail) { edge(radix, tail, 0, 0); }

static void canon(rt_string s, uint64_t radix, int neg, int zero) {
  symx_assert(s.len >= 1 + neg && s.len <= 64 + neg, "printed number: length");
  if (neg) symx_assert(s.ptr[0] == '-', "printed number: sign");
  if (!zero) symx_assert(s.ptr[neg] != '0', "printed number: no leading zero"); else symx_assert(s.len == 1 && s.ptr[0] == '0', "printed zero");
  for (size_t i = neg; i < s.len; i++) { uint8_t c = s.ptr[i]; symx_assert((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z'), "printed number: digit characters"); }
}
/* every integer of `bits` bits (0: all 64) prints canonically and parses back */
void h_rt_i64(uint64_t radix, uint64_t bits) {
  int64_t v = (int64_t)symx_int(64);
  if (bits >= 100) symx_assume((uint64_t)v - (uint64_t)INT64_MAX + (1ull << (bits - 100)) < 2ull << (bits - 100)); /* near both limits */
  else if (bits) symx_assume(v < (1ll << bits) && v > -(1ll << bits));
  rt_string s = llrt_i64_to_string(radix, v);
  canon(s, radix, v < 0, v == 0);
  symx_observe(1, s.len);
  to_i64 r = llrt_string_to_i64(radix, s);
  symx_assert(r.success, "i64->string->i64: parses");
  symx_assert(r.value == v, "i64->string->i64: same value");
  symx_reach(1);
}
void h_rt_u64(uint64_t radix, uint64_t bits) {
  uint64_t v = symx_int(64);
  if (bits >= 100) symx_assume(v > UINT64_MAX - (1ull << (bits - 100)));
  else if (bits) symx_assume(v < (1ull << bits));
  rt_string s = llrt_u64_to_string(radix, v);
  canon(s, radix, 0, v == 0);
  symx_observe(1, s.len);
  to_u64 r = llrt_string_to_u64(radix, s);
  symx_assert(r.success, "u64->string->u64: parses");
  symx_assert(r.value == v, "u64->string->u64: same value");
  symx_reach(1);
}

/* strings: equality, order, concatenation */
void h_str_cmp(uint64_t n, uint64_t m) {
  uint8_t *a = malloc(n + 1), *b = malloc(m + 1);
  symx_bytes(a, n); symx_bytes(b, m);
  rt_string x = {n ? (char *)a : NULL, n}, y = {m ? (char *)b : NULL, m};
  int want = 0;
  for (size_t i = 0; i < n && i < m; i++) if (a[i] != b[i]) { want = a[i] < b[i] ? -1 : 1; break; }
  if (!want && n != m) want = n < m ? -1 : 1;
  symx_assert(llrt_string_cmp(x, y) == want, "string order is bytewise lexicographic");
  symx_assert((llrt_string_eq(x, y) != 0) == (want == 0), "string equality");
  rt_string c = llrt_string_concat(x, y);
  symx_assert(c.len == n + m, "concatenation: length");
  for (size_t i = 0; i < n; i++) symx_assert((uint8_t)c.ptr[i] == a[i], "concatenation: first part");
  for (size_t i = 0; i < m; i++) symx_assert((uint8_t)c.ptr[n + i] == b[i], "concatenation: second part");
  for (size_t i = 0; i < n; i++) symx_observe(1, a[i]);
  symx_reach(1);
}
