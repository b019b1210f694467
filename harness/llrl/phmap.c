#include "m_map.h"
/* which number, hashed with the hasher of that seed, falls into a class of hashes (plus one; 0 if not known yet) */
static uint64_t hk_seed[64], hk_class[64], hk_c[64]; static uint64_t hk_n;
uint64_t hk_get(uint64_t seed, uint64_t w) { for (uint64_t i = hk_n; i > 0; i--) if (hk_seed[i - 1] == seed && hk_class[i - 1] == w) return hk_c[i - 1]; return 0; }
uint64_t hk_put(uint64_t seed, uint64_t w, uint64_t c) { hk_seed[hk_n & 63] = seed; hk_class[hk_n & 63] = w; hk_c[hk_n & 63] = c; if (hk_n < 64) hk_n++; return 0; }
