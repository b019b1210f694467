/* reference model: lists of u64 */
#include "symx.h"
#define CAP 64
typedef struct { uint64_t a[CAP], n; } L;
static L ml[8];
uint64_t ml_len(uint64_t k) { return ml[k].n; }
uint64_t ml_get(uint64_t k, uint64_t i) { return ml[k].a[i]; }
void ml_set(uint64_t k, uint64_t i, uint64_t v) { ml[k].a[i] = v; }
void ml_insert(uint64_t k, uint64_t i, uint64_t v) { L *l = &ml[k]; for (uint64_t j = l->n; j > i; j--) l->a[j] = l->a[j - 1]; l->a[i] = v; l->n++; }
void ml_push(uint64_t k, uint64_t v) { ml_insert(k, ml[k].n, v); }
uint64_t ml_remove(uint64_t k, uint64_t i) { L *l = &ml[k]; uint64_t v = l->a[i]; for (uint64_t j = i; j + 1 < l->n; j++) l->a[j] = l->a[j + 1]; l->n--; return v; }
void ml_clear(uint64_t k) { ml[k].n = 0; }
void ml_trunc(uint64_t k, uint64_t n) { if (n < ml[k].n) ml[k].n = n; }
void ml_swap(uint64_t k, uint64_t i, uint64_t j) { uint64_t t = ml[k].a[i]; ml[k].a[i] = ml[k].a[j]; ml[k].a[j] = t; }
void ml_rev(uint64_t k) { for (uint64_t i = 0, j = ml[k].n; i + 1 < j; i++) ml_swap(k, i, --j); }
void ml_copy(uint64_t d, uint64_t s) { ml[d] = ml[s]; }
void ml_slice(uint64_t d, uint64_t s, uint64_t from, uint64_t to) { L t = ml[s]; ml[d].n = 0; for (uint64_t i = from; i < to; i++) ml_push(d, t.a[i]); }
void ml_cat(uint64_t d, uint64_t s) { L t = ml[s]; for (uint64_t i = 0; i < t.n; i++) ml_push(d, t.a[i]); }
