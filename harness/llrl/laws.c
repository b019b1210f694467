#include "m_list.h"
#include <string.h>
double lw_f64(uint64_t x) { double d; memcpy(&d, &x, 8); return d; }
float lw_f32(uint64_t x) { uint32_t y = x; float d; memcpy(&d, &y, 4); return d; }
/* are the two slots the same list? */
uint64_t lw_same(uint64_t a, uint64_t b) {
  if (ml[a].n != ml[b].n) return 0;
  uint64_t r = 1;
  for (uint64_t i = 0; i < ml[a].n; i++) r &= ml[a].a[i] == ml[b].a[i];
  return r;
}
/* do the two slots hold the same map, as insertions of keys and values? */
static uint64_t sub(L *a, L *b) {
  for (uint64_t i = 0; i < a->n; i += 2) {
    uint64_t x = ~0ull, y = ~0ull;
    for (uint64_t j = 0; j < a->n; j += 2) if (a->a[j] == a->a[i]) x = a->a[j + 1];
    for (uint64_t j = 0; j < b->n; j += 2) if (b->a[j] == a->a[i]) y = b->a[j + 1];
    if (x != y) return 0;
  }
  return 1;
}
uint64_t lw_same_map(uint64_t a, uint64_t b) { return sub(&ml[a], &ml[b]) && sub(&ml[b], &ml[a]); }
