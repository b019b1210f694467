#include "m_list.h"
#include <string.h>
double fl_f64(uint64_t x) { double d; memcpy(&d, &x, 8); return d; }
uint64_t fl_bits64(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
float fl_f32(uint32_t x) { float d; memcpy(&d, &x, 4); return d; }
uint32_t fl_bits32(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
uint64_t fl_same(uint64_t a, uint64_t b) {
  if (ml[a].n != ml[b].n) return 0;
  uint64_t r = 1;
  for (uint64_t i = 0; i < ml[a].n; i++) r &= ml[a].a[i] == ml[b].a[i];
  return r;
}
/* the numbers the clauses give */
uint64_t fl_num(uint64_t w, uint64_t x) {
  switch (w) {
  case 0: switch ((uint8_t)x) { case 0: return 1; case 7: return 2; case 128: return 3; case 255: return 4; } return 5;
  case 1: switch ((uint16_t)x) { case 0: return 1; case 255: return 2; case 256: return 3; case 65535: return 4; } return 5;
  case 2: switch ((uint32_t)x) { case 1: return 1; case 65536: return 2; case 2147483648u: return 3; case 4294967295u: return 4; } return 5;
  case 3: switch (x) { case 0: return 1; case 4294967296ull: return 2; case 9223372036854775808ull: return 3; case 18446744073709551615ull: return 4; } return 5;
  case 4: switch ((int8_t)x) { case -128: return 1; case -1: return 2; case 0: return 3; case 127: return 4; } return 5;
  case 5: switch ((int16_t)x) { case -32768: return 1; case -2: return 2; case 3: return 3; case 32767: return 4; } return 5;
  case 6: switch ((int32_t)x) { case -2147483647 - 1: return 1; case -3: return 2; case 65536: return 3; case 2147483647: return 4; } return 5;
  case 7: switch ((int64_t)x) { case -9223372036854775807ll: return 1; case -4: return 2; case 4294967296ll: return 3; case 9223372036854775807ll: return 4; } return 5;
  case 8: switch (x) { case 'a': return 1; case 0x3bb: return 2; case 0x1f600: return 3; case 10: return 4; } return 5;
  }
  return 0;
}
uint64_t fl_str(const uint8_t *p, uint64_t n) {
  if (n == 0) return 1;
  if (n == 1 && p[0] == 'a') return 2;
  if (n == 2 && p[0] == 'a' && p[1] == 'b') return 3;
  if (n == 2 && p[0] == 'a' && p[1] == 'c') return 4;
  if (n == 1 && p[0] == 10) return 5;
  return 6;
}
uint64_t fl_pair(uint64_t a, uint64_t b, uint64_t c) {
  if (a == 0) return 100 + b;
  if (b == 0 && c) return 200 + a;
  if (a == 1 && b == 2) return 300;
  if (a == 1) return 400 + b;
  if (!c && b == 2) return 500 + a;
  if (a == b) return 600; /* through a nested clause */
  return 700;
}
