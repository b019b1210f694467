// Reference: what the bytes in memory are, and what C says about the layout of the same types.
#include "../include/symx.h"
typedef uint64_t u64;
u64 op_load(u64 w, u64 p) { switch (w) { case 1: return *(uint8_t *)p; case 2: return *(uint16_t *)p; case 4: return *(uint32_t *)p; default: return *(uint64_t *)p; } }
u64 op_byte(u64 x, u64 i) { return (x >> (8 * i)) & 255; }
struct s0 { uint8_t a; uint32_t b; }; struct s1 { uint8_t a; uint64_t b; uint8_t c; }; struct s2 { uint16_t a; uint8_t b; }; struct s3 { struct s2 a; double b; uint8_t c; };
u64 op_size(u64 t) {
  switch (t) { case 0: return 1; case 1: return 2; case 2: return 4; case 3: return 8; case 4: return sizeof(float); case 5: return sizeof(double); case 6: return sizeof(void *);
  case 7: return sizeof(struct s0); case 8: return sizeof(struct s1); case 9: return sizeof(struct s2); case 10: return sizeof(struct s3); } return 99; }
u64 op_align(u64 t) {
  switch (t) { case 0: return 1; case 1: return 2; case 2: return 4; case 3: return 8; case 4: return _Alignof(float); case 5: return _Alignof(double); case 6: return _Alignof(void *);
  case 7: return _Alignof(struct s0); case 8: return _Alignof(struct s1); case 9: return _Alignof(struct s2); case 10: return _Alignof(struct s3); } return 99; }
// the fields of a structure lie where C puts them
u64 op_s1(u64 p, u64 f) { struct s1 *s = (struct s1 *)p; return f == 0 ? s->a : f == 1 ? s->b : s->c; }
u64 op_s3(u64 p, u64 f) { struct s3 *s = (struct s3 *)p; u64 d; __builtin_memcpy(&d, &s->b, 8); return f == 0 ? s->a.a : f == 1 ? s->a.b : f == 2 ? d : s->c; }
// reference memory of n cells
static u64 cell[16], old[16];
u64 op_put(u64 i, u64 v) { cell[i] = v; return 0; }
u64 op_get(u64 i) { return cell[i]; }
u64 op_move(u64 from, u64 n, u64 to) { for (u64 i = 0; i < 16; i++) old[i] = cell[i]; for (u64 i = 0; i < n; i++) cell[to + i] = old[from + i]; return 0; }
