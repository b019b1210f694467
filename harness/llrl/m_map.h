/* reference model: finite maps from u64 to u64, in key order (mm_put) */
#include "symx.h"
#define MCAP 256
typedef struct { uint64_t k[MCAP], v[MCAP], n; } MM;
static MM mm[4];
uint64_t mm_len(uint64_t s) { return mm[s].n; }
uint64_t mm_key(uint64_t s, uint64_t i) { return mm[s].k[i]; }
uint64_t mm_val(uint64_t s, uint64_t i) { return mm[s].v[i]; }
void mm_clear(uint64_t s) { mm[s].n = 0; }
void mm_copy(uint64_t d, uint64_t s) { mm[d] = mm[s]; }
/* position of key, or n */
uint64_t mm_find(uint64_t s, uint64_t key) { for (uint64_t i = 0; i < mm[s].n; i++) if (mm[s].k[i] == key) return i; return mm[s].n; }
uint64_t mm_has(uint64_t s, uint64_t key) { return mm_find(s, key) < mm[s].n; }
uint64_t mm_get(uint64_t s, uint64_t key) { return mm[s].v[mm_find(s, key)]; }
void mm_del_at(uint64_t s, uint64_t i) { MM *m = &mm[s]; for (; i + 1 < m->n; i++) { m->k[i] = m->k[i + 1]; m->v[i] = m->v[i + 1]; } m->n--; }
void mm_del(uint64_t s, uint64_t key) { uint64_t i = mm_find(s, key); if (i < mm[s].n) mm_del_at(s, i); }
void mm_put(uint64_t s, uint64_t key, uint64_t v) {
  MM *m = &mm[s]; uint64_t i = 0;
  while (i < m->n && m->k[i] < key) i++;
  if (i < m->n && m->k[i] == key) { m->v[i] = v; return; }
  for (uint64_t j = m->n; j > i; j--) { m->k[j] = m->k[j - 1]; m->v[j] = m->v[j - 1]; }
  m->k[i] = key; m->v[i] = v; m->n++;
}
/* unordered put */
void mm_add(uint64_t s, uint64_t key, uint64_t v) { MM *m = &mm[s]; uint64_t i = mm_find(s, key); if (i == m->n) { m->k[i] = key; m->n++; } m->v[i] = v; }
