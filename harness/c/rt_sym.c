/* llrt: generated symbols. COUNTER is the static variable of rt.c that llrt_string_genid counts with (named by tools/units.py). */
/* @static COUNTER llrt_string_genid */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "symx.h"
static uint64_t last_size;
void *h_malloc(size_t n) { last_size = n; return malloc(n); }
static uint64_t p10(int i) { uint64_t v = 1; while (i--) v *= 10; return v; }
static int digits(uint64_t v) { int n = 1; while (n < 20 && v >= p10(n)) n++; return n; }
/* the formats of integers */
static int h_vsprintf(char *o, size_t cap, const char *f, uint64_t arg) {
  size_t n = 0;
#define PUT(c) do { char c_ = (c); if (n + 1 < cap) o[n] = c_; n++; } while (0)
  for (; *f; f++) {
    if (*f != '%') { PUT(*f); continue; }
    f++;
    int l = 0, zero = 0, width = 0;
    if (*f == '0') { zero = 1; f++; }
    while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    while (*f == 'l' || *f == 'z' || *f == 'j') { l++; f++; }
    uint64_t v = l ? arg : (uint32_t)arg, base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : 10;
    symx_assert(*f == 'u' || *f == 'd' || *f == 'i' || base != 10, "a format of integers");
    if (*f == 'd' || *f == 'i') { int64_t s = l ? (int64_t)v : (int32_t)v; if (s < 0) { PUT('-'); v = -(uint64_t)s; } else v = s; }
    int d;
    if (base == 10) d = digits(v); else { d = 1; while (d < 22 && (base == 16 ? (d < 16 && v >> (4 * d)) : v >> (3 * d))) d++; }
    for (int i = d; i < width; i++) PUT(zero ? '0' : ' ');
    for (int i = d - 1; i >= 0; i--) {
      uint64_t g = base == 10 ? v / p10(i) % 10 : base == 16 ? v >> (4 * i) & 15 : v >> (3 * i) & 7;
      PUT(g < 10 ? '0' + g : (*f == 'X' ? 'A' : 'a') + g - 10);
    }
  }
  if (cap) o[n < cap ? n : cap - 1] = 0;
  return n;
#undef PUT
}
/* as computed in doubles: 15 significant digits decide */
static double h_log10(double x) { int n = 0; while (n < 19 && x >= (double)p10(n + 1)) n++; return n; }
#define GC_malloc h_malloc
#define sprintf(o, ...) h_vsprintf(o, SIZE_MAX, FMT(__VA_ARGS__, 0), ARG(__VA_ARGS__, 0))
#define snprintf(o, n, ...) h_vsprintf(o, n, FMT(__VA_ARGS__, 0), ARG(__VA_ARGS__, 0))
#define FMT(f, ...) f
#define ARG(f, x, ...) ((uint64_t)(x))
#define log10 h_log10
#include <rt.c>
#undef GC_malloc
#ifndef COUNTER
static uint64_t COUNTER;
#endif

static void is_sym(rt_string s, uint64_t v) {
  int d = digits(v);
  symx_assert(s.len == 1 + d, "a generated symbol is '@' and the decimal digits of the counter, no more");
  symx_assert(s.len <= last_size, "a generated symbol fits the memory set aside for it");
  symx_assert(s.ptr[0] == '@', "a generated symbol begins with '@'");
  for (int i = 0; i < d; i++) symx_assert((uint8_t)s.ptr[1 + i] == '0' + v / p10(d - 1 - i) % 10, "the digits are those of the counter, which no symbol before had");
}
/* after any number of symbols */
void h_genid(uint64_t u1, uint64_t u2) {
  uint64_t c = symx_u64();
  symx_assume(c < UINT64_MAX - 2);
  COUNTER = c;
  rt_string a = llrt_string_genid();
  is_sym(a, c + 1);
  rt_string b = llrt_string_genid();
  is_sym(b, c + 2);
  is_sym(a, c + 1);
  symx_observe(1, a.len); symx_observe(2, b.len); symx_reach(1);
}
/* from the start */
void h_first(uint64_t n, uint64_t u2) {
  rt_string *a = malloc(n * sizeof(rt_string));
  for (uint64_t i = 0; i < n; i++) {
    a[i] = llrt_string_genid();
    for (uint64_t j = 0; j < i; j++) symx_assert(a[j].len != a[i].len || memcmp(a[j].ptr, a[i].ptr, a[i].len) != 0, "two generated symbols differ");
  }
  symx_reach(1);
}
