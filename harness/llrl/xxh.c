// Reference: the XXH64 specification, over the bytes of list 0.
#include "m_list.h"
typedef uint64_t u64;
#define P1 0x9E3779B185EBCA87ULL
#define P2 0xC2B2AE3D27D4EB4FULL
#define P3 0x165667B19E3779F9ULL
#define P4 0x85EBCA77C2B2AE63ULL
#define P5 0x27D4EB2F165667C5ULL
static u64 rotl(u64 x, int r) { return (x << r) | (x >> (64 - r)); }
static u64 rd(u64 i, int n) { u64 v = 0; for (int k = 0; k < n; k++) v |= ml[0].a[i + k] << (8 * k); return v; }
static u64 rnd(u64 a, u64 lane) { return rotl(a + lane * P2, 31) * P1; }
static u64 mrg(u64 a, u64 v) { return (a ^ rnd(0, v)) * P1 + P4; }
u64 ref_xxh64(u64 seed) {
  u64 n = ml[0].n, i = 0, h;
  if (n >= 32) {
    u64 a = seed + P1 + P2, b = seed + P2, c = seed, d = seed - P1;
    for (; i + 32 <= n; i += 32) { a = rnd(a, rd(i, 8)); b = rnd(b, rd(i + 8, 8)); c = rnd(c, rd(i + 16, 8)); d = rnd(d, rd(i + 24, 8)); }
    h = rotl(a, 1) + rotl(b, 7) + rotl(c, 12) + rotl(d, 18);
    h = mrg(mrg(mrg(mrg(h, a), b), c), d);
  } else h = seed + P5;
  h += n;
  for (; i + 8 <= n; i += 8) h = rotl(h ^ rnd(0, rd(i, 8)), 27) * P1 + P4;
  if (i + 4 <= n) { h = rotl(h ^ (rd(i, 4) * P1), 23) * P2 + P3; i += 4; }
  for (; i < n; i++) h = rotl(h ^ (rd(i, 1) * P5), 11) * P1;
  h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; return h ^ (h >> 32);
}
