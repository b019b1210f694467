// Reference: what C defines for the types of the same width.
#include "../include/symx.h"
#include <math.h>
typedef uint64_t u64;
#define W(T) (sizeof(T) * 8)
#define SGN(T) (((T)-1) < (T)1)
#define MINV(T) (SGN(T) ? (T)((u64)1 << (W(T) - 1)) : (T)0)
// types without promotion to int
typedef _BitInt(8) N_int8_t; typedef _BitInt(16) N_int16_t; typedef int32_t N_int32_t; typedef int64_t N_int64_t;
typedef unsigned _BitInt(8) N_uint8_t; typedef unsigned _BitInt(16) N_uint16_t; typedef uint32_t N_uint32_t; typedef uint64_t N_uint64_t;
// result 0: not defined (excluded), 1: defined
#define BIN(T, U) \
static u64 bin_##T(u64 op, u64 x, u64 y, u64 *r) { \
  T a = (T)x, b = (T)y, z; \
  switch (op) { \
  case 0: if (__builtin_add_overflow(a, b, &z) && SGN(T)) return 0; *r = (u64)z; return 1; \
  case 1: if (__builtin_sub_overflow(a, b, &z) && SGN(T)) return 0; *r = (u64)z; return 1; \
  case 2: __builtin_mul_overflow(a, b, &z); *r = (u64)z; return 1; \
  case 3: if (b == 0 || (SGN(T) && a == MINV(T) && b == (T)-1)) return 0; *r = (u64)(T)((N_##T)a / (N_##T)b); return 1; \
  case 4: if (b == 0 || (SGN(T) && a == MINV(T) && b == (T)-1)) return 0; *r = (u64)(T)((N_##T)a % (N_##T)b); return 1; \
  case 5: if ((U)b >= W(T)) return 0; *r = (u64)(T)(U)((U)a << (U)b); return 1; \
  case 6: if ((U)b >= W(T)) return 0; *r = (u64)(T)(a >> (U)b); return 1; \
  case 7: *r = (u64)(T)(a & b); return 1; \
  case 8: *r = (u64)(T)(a | b); return 1; \
  case 9: *r = (u64)(T)(a ^ b); return 1; \
  case 10: *r = (u64)(T)~a; return 1; \
  case 11: { int n = 0; for (unsigned i = 0; i < W(T); i++) n += ((U)a >> i) & 1; *r = (u64)n; return 1; } \
  case 12: if (__builtin_sub_overflow((T)0, a, &z) && SGN(T)) return 0; *r = (u64)z; return 1; \
  case 13: if (SGN(T) && a == MINV(T)) return 0; *r = (u64)(T)(a < 0 ? 0 - (U)a : a); return 1; \
  case 14: if (__builtin_add_overflow(a, (T)1, &z) && SGN(T)) return 0; *r = (u64)z; return 1; \
  case 15: if (__builtin_sub_overflow(a, (T)1, &z) && SGN(T)) return 0; *r = (u64)z; return 1; \
  case 16: *r = a == b; return 1; \
  case 17: *r = a != b; return 1; \
  case 18: *r = a < b; return 1; \
  case 19: *r = a <= b; return 1; \
  case 20: *r = a > b; return 1; \
  case 21: *r = a >= b; return 1; \
  case 22: *r = (u64)(a < b ? a : b); return 1; \
  case 23: *r = (u64)(a > b ? a : b); return 1; \
  case 24: *r = a < b ? 0 : a == b ? 1 : 2; return 1; \
  case 25: *r = (u64)MINV(T); return 1; \
  case 26: *r = (u64)(SGN(T) ? (T)~(U)MINV(T) : (T)-1); return 1; \
  } return 0; }
BIN(int8_t, uint8_t) BIN(int16_t, uint16_t) BIN(int32_t, uint32_t) BIN(int64_t, uint64_t)
BIN(uint8_t, uint8_t) BIN(uint16_t, uint16_t) BIN(uint32_t, uint32_t) BIN(uint64_t, uint64_t)
static u64 ar_r;
uint64_t ar_bin(uint64_t ty, uint64_t op, uint64_t a, uint64_t b) {
  switch (ty) {
  case 0: return bin_int8_t(op, a, b, &ar_r);
  case 1: return bin_int16_t(op, a, b, &ar_r);
  case 2: return bin_int32_t(op, a, b, &ar_r);
  case 3: return bin_int64_t(op, a, b, &ar_r);
  case 4: return bin_uint8_t(op, a, b, &ar_r);
  case 5: return bin_uint16_t(op, a, b, &ar_r);
  case 6: return bin_uint32_t(op, a, b, &ar_r);
  default: return bin_uint64_t(op, a, b, &ar_r);
  }
}
uint64_t ar_res(void) { return ar_r; }
static u64 nrm(u64 ty, u64 x) {
  switch (ty) {
  case 0: return (u64)(int8_t)x; case 1: return (u64)(int16_t)x; case 2: return (u64)(int32_t)x;
  case 4: return (uint8_t)x; case 5: return (uint16_t)x; case 6: return (uint32_t)x; default: return x;
  }
}
// value of type `ty` holding the low bits of x, as 64 bits (sign- or zero-extended)
uint64_t ar_norm(uint64_t ty, uint64_t x) { return nrm(ty, x); }
// converting from `from` to `to`: modulo 2^width
uint64_t ar_conv(uint64_t from, uint64_t to, uint64_t x) { return nrm(to, nrm(from, x)); }
static u64 b64(double d) { u64 r; __builtin_memcpy(&r, &d, 8); return r; }
static u64 b32(float d) { uint32_t r; __builtin_memcpy(&r, &d, 4); return r; }
double ar_f64(uint64_t x) { double d; __builtin_memcpy(&d, &x, 8); return d; }
float ar_f32(uint64_t x) { uint32_t y = (uint32_t)x; float d; __builtin_memcpy(&d, &y, 4); return d; }
// is the bit pattern of r the reference value, all NaNs being one value
static u64 eq64(double r, double e) { return (r != r && e != e) || b64(r) == b64(e); }
static u64 eq32(float r, float e) { return (r != r && e != e) || b32(r) == b32(e); }
#define CV(T, x) ((T)(x))
uint64_t ar_to_f64(uint64_t ty, uint64_t x, double r) {
  double e = ty < 4 ? (double)(int64_t)nrm(ty, x) : (double)nrm(ty, x);
  return eq64(r, e);
}
uint64_t ar_to_f32(uint64_t ty, uint64_t x, float r) {
  float e = ty < 4 ? (float)(int64_t)nrm(ty, x) : (float)nrm(ty, x);
  return eq32(r, e);
}
// float to integer: defined when the value without its fraction is in range
#define TO(T, lo, hi) { if (!(d > (lo) && d < (hi))) return 0; ar_r = (u64)(T)d; return 1; }
static u64 to_int(u64 ty, double d) {
  switch (ty) {
  case 0: TO(int8_t, -129.0, 128.0)
  case 1: TO(int16_t, -32769.0, 32768.0)
  case 2: TO(int32_t, -2147483649.0, 2147483648.0)
  case 3: if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0; ar_r = (u64)(int64_t)d; return 1;
  case 4: TO(uint8_t, -1.0, 256.0)
  case 5: TO(uint16_t, -1.0, 65536.0)
  case 6: TO(uint32_t, -1.0, 4294967296.0)
  default: TO(uint64_t, -1.0, 18446744073709551616.0)
  }
}
uint64_t ar_from_f64(uint64_t ty, uint64_t x) { return to_int(ty, ar_f64(x)); }
uint64_t ar_from_f32(uint64_t ty, uint64_t x) { return to_int(ty, (double)ar_f32(x)); }
uint64_t ar_f32_ext(uint64_t x, double r) { return eq64(r, (double)ar_f32(x)); }
uint64_t ar_f64_trunc(uint64_t x, float r) { return eq32(r, (float)ar_f64(x)); }
#define FB(T, B, EQ, S) \
uint64_t ar_fop_##B(uint64_t op, uint64_t x, uint64_t y, T r) { \
  T a = ar_##B(x), b = ar_##B(y); \
  switch (op) { \
  case 0: return EQ(r, a + b); case 1: return EQ(r, a - b); case 2: return EQ(r, a * b); case 3: return EQ(r, a / b); \
  case 4: return EQ(r, __builtin_ceil##S(a)); case 5: return EQ(r, __builtin_floor##S(a)); case 6: return EQ(r, __builtin_trunc##S(a)); case 7: return EQ(r, __builtin_round##S(a)); \
  case 8: return EQ(r, __builtin_sqrt##S(a)); case 9: return EQ(r, (T)0 - a); \
  case 10: return EQ(r, (a < 0 ? (T)0 - a : a != a ? a : a)); \
  case 11: return EQ(r, (T)1 / a); \
  } return 0; } \
uint64_t ar_fcmp_##B(uint64_t op, uint64_t x, uint64_t y) { \
  T a = ar_##B(x), b = ar_##B(y); \
  switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; case 5: return a >= b; } return 2; }
FB(double, f64, eq64, ) FB(float, f32, eq32, f)
// numerals: '-' only for signed types and before a digit; digits of the radix; in range of the type
static unsigned char sbuf[32]; static u64 sn;
uint64_t ar_str_reset(void) { sn = 0; return 0; }
uint64_t ar_str_push(uint64_t c) { sbuf[sn++] = (unsigned char)c; return 0; }
uint64_t ar_parse(uint64_t ty, uint64_t radix) {
  u64 i = 0; int neg = 0; unsigned __int128 v = 0;
  if (sn == 0) return 0;
  if (ty < 4 && sn >= 2 && sbuf[0] == '-') { neg = 1; i = 1; }
  for (; i < sn; i++) {
    unsigned c = sbuf[i], d;
    if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else return 0;
    if (d >= radix) return 0;
    v = v * radix + d;
  }
  static const u64 lim[8] = { 127, 32767, 2147483647ull, 9223372036854775807ull, 255, 65535, 4294967295ull, ~0ull };
  if (v > (unsigned __int128)lim[ty] + (neg ? 1 : 0)) return 0;
  ar_r = neg ? 0 - (u64)v : (u64)v;
  return 1;
}
// i-th byte of the decimal limit of the type, 0 past its end
uint64_t ar_limit_char(uint64_t ty, uint64_t i) {
  static const char *const t[8] = { "128", "32768", "2147483648", "9223372036854775808", "255", "65535", "4294967295", "18446744073709551615" };
  const char *p = t[ty]; for (u64 k = 0; k < i; k++) if (!p[k]) return 0;
  return (unsigned char)p[i];
}
