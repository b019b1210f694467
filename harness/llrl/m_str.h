/* reference model: byte strings (slots of m_list.h) and UTF-8 as defined by Unicode table 3-7 */
#include "m_list.h"
static int cont(uint64_t b) { return b >= 0x80 && b <= 0xbf; }
/* length of the well-formed sequence at i, 0 if there is none; *cp its scalar value */
static uint64_t u8_seq(const L *l, uint64_t i, uint64_t *cp) {
  uint64_t a = l->a[i], r = l->n - i;
  if (a < 0x80) { *cp = a; return 1; }
  if (a >= 0xc2 && a <= 0xdf) { if (r < 2 || !cont(l->a[i + 1])) return 0; *cp = (a - 0xc0) * 64 + (l->a[i + 1] - 0x80); return 2; }
  if (a >= 0xe0 && a <= 0xef) {
    if (r < 3 || !cont(l->a[i + 1]) || !cont(l->a[i + 2])) return 0;
    if (a == 0xe0 && l->a[i + 1] < 0xa0) return 0;
    if (a == 0xed && l->a[i + 1] > 0x9f) return 0;
    *cp = (a - 0xe0) * 4096 + (l->a[i + 1] - 0x80) * 64 + (l->a[i + 2] - 0x80); return 3;
  }
  if (a >= 0xf0 && a <= 0xf4) {
    if (r < 4 || !cont(l->a[i + 1]) || !cont(l->a[i + 2]) || !cont(l->a[i + 3])) return 0;
    if (a == 0xf0 && l->a[i + 1] < 0x90) return 0;
    if (a == 0xf4 && l->a[i + 1] > 0x8f) return 0;
    *cp = (a - 0xf0) * 262144 + (l->a[i + 1] - 0x80) * 4096 + (l->a[i + 2] - 0x80) * 64 + (l->a[i + 3] - 0x80); return 4;
  }
  return 0;
}
/* decode slot s: scalars into slot c, their offsets into slot o; answers whether it is well formed */
uint64_t ms_decode(uint64_t s, uint64_t c, uint64_t o) {
  ml[c].n = ml[o].n = 0;
  for (uint64_t i = 0; i < ml[s].n;) {
    uint64_t cp, k = u8_seq(&ml[s], i, &cp);
    if (!k) return 0;
    ml_push(c, cp); ml_push(o, i); i += k;
  }
  return 1;
}
/* append the UTF-8 of a scalar value, if it is one */
uint64_t ms_encode(uint64_t s, uint64_t x) {
  if (x < 0x80) { ml_push(s, x); return 1; }
  if (x < 0x800) { ml_push(s, 0xc0 + x / 64); ml_push(s, 0x80 + x % 64); return 2; }
  if (x >= 0xd800 && x < 0xe000) return 0;
  if (x < 0x10000) { ml_push(s, 0xe0 + x / 4096); ml_push(s, 0x80 + x / 64 % 64); ml_push(s, 0x80 + x % 64); return 3; }
  if (x < 0x110000) { ml_push(s, 0xf0 + x / 262144); ml_push(s, 0x80 + x / 4096 % 64); ml_push(s, 0x80 + x / 64 % 64); ml_push(s, 0x80 + x % 64); return 4; }
  return 0;
}
/* is n a position between characters of the well-formed slot s? */
uint64_t ms_boundary(uint64_t s, uint64_t n) { return n == 0 || n == ml[s].n || (n < ml[s].n && !cont(ml[s].a[n])); }
/* does part occur in s at i? */
uint64_t ms_at(uint64_t p, uint64_t s, uint64_t i) {
  if (i > ml[s].n || ml[s].n - i < ml[p].n) return 0;
  for (uint64_t j = 0; j < ml[p].n; j++) if (ml[s].a[i + j] != ml[p].a[j]) return 0;
  return 1;
}
/* first occurrence at or after i; the length of s plus one if there is none */
uint64_t ms_find(uint64_t p, uint64_t s, uint64_t i) { for (; i <= ml[s].n; i++) if (ms_at(p, s, i)) return i; return ml[s].n + 1; }
int64_t ms_cmp(uint64_t a, uint64_t b) {
  for (uint64_t i = 0; i < ml[a].n && i < ml[b].n; i++) if (ml[a].a[i] != ml[b].a[i]) return ml[a].a[i] < ml[b].a[i] ? -1 : 1;
  return ml[a].n < ml[b].n ? -1 : ml[a].n > ml[b].n;
}
