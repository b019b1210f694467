#include "x86.h"
static const Form F[] = {
#include "forms.h"
};
uint64_t x86_forms(void) { return sizeof F / sizeof *F; }
static uint64_t le(const uint8_t *b, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v |= (uint64_t)b[i] << (8 * i); return v; }
static int64_t sext(uint64_t v, unsigned n) { return n == 8 ? (int64_t)v : (int64_t)(v << (64 - 8 * n)) >> (64 - 8 * n); }

// does the form have an operand in memory / a 8-bit register at i
uint64_t x86_role(uint64_t k, uint64_t i) { return F[k].role[i]; }

// can no encoding exist: a high byte register in an instruction that needs a REX prefix
uint64_t x86_impossible(uint64_t k, const Operand *o, uint64_t is_mem, const Mem *m) {
  const Form *f = &F[k]; int high = 0, rex = f->w;
  for (int i = 0; i < 3; i++) {
    if (f->role[i] < 1 || f->role[i] > 3 || (f->role[i] == 2 && is_mem)) continue;
    if (o[i].code >= 8) rex = 1;
    if (f->r8[i] && o[i].high) high = 1;
    if (f->r8[i] && !o[i].high && o[i].code >= 4) rex = 1;
  }
  if (is_mem && ((m->base == 2 && m->code >= 8) || (m->has_index && m->index >= 8))) rex = 1;
  return high && rex;
}

// 0 if the n bytes are the instruction, otherwise what is wrong
uint64_t x86_wrong(uint64_t k, const uint8_t *b, uint64_t n, const Operand *o, uint64_t is_mem, const Mem *m) {
  const Form *f = &F[k]; uint64_t p = 0;
  if (n > 15) return 1;
  for (int i = 0; i < f->npp; i++, p++) if (p >= n || b[p] != f->pp[i]) return 2;
  int rex = 0, W = 0, R = 0, X = 0, B = 0;
  if (p < n && (b[p] & 0xF0) == 0x40) { rex = 1; W = b[p] >> 3 & 1; R = b[p] >> 2 & 1; X = b[p] >> 1 & 1; B = b[p] & 1; p++; }
  if (W != f->w) return 3;
  for (int i = 0; i < f->nop; i++, p++) { if (p >= n) return 4; if ((f->plus && i == f->nop - 1 ? b[p] & 0xF8 : b[p]) != f->op[i]) return 5; }
  unsigned oreg = (b[p - 1] & 7) | B << 3;
  unsigned mod = 3, reg = 0, rm = 0; Mem d = {0, 0, 0, 0, 1, 0};
  if (f->modrm >= 0) {
    if (p >= n) return 6;
    mod = b[p] >> 6; reg = b[p] >> 3 & 7; rm = b[p] & 7; p++;
    if (f->modrm < 8 && reg != (unsigned)f->modrm) return 7;
    reg |= R << 3;
    unsigned disp = mod == 1 ? 1 : mod == 2 ? 4 : 0;
    if (mod != 3) {
      if (rm == 4) {
        if (p >= n) return 8;
        unsigned s = b[p] >> 6, x = (b[p] >> 3 & 7) | X << 3, base = b[p] & 7; p++;
        if (x != 4) { d.has_index = 1; d.index = x; d.scale = 1u << s; }
        if (base == 5 && mod == 0) disp = 4; else { d.base = 2; d.code = base | B << 3; }
      } else if (rm == 5 && mod == 0) { d.base = 1; disp = 4; }
      else { d.base = 2; d.code = rm | B << 3; }
    }
    if (disp) { if (p + disp > n) return 9; d.disp = sext(le(b + p, disp), disp); p += disp; }
    rm |= B << 3;
  }
  for (int i = 0; i < 3; i++) {
    switch (f->role[i]) {
      case 1: case 3: case 2: {
        if (f->role[i] == 2 && is_mem) {
          if (mod == 3) return 10;
          if (d.base != m->base || (d.base == 2 && d.code != m->code)) return 11;
          if (d.has_index != m->has_index || (d.has_index && (d.index != m->index || d.scale != m->scale))) return 12;
          if (d.disp != m->disp) return 13;
          break;
        }
        if (f->role[i] == 2 && mod != 3) return 14;
        unsigned c = f->role[i] == 1 ? reg : f->role[i] == 2 ? rm : oreg;
        if (c != o[i].code) return 15;
        // without a REX prefix, 4..7 are ah ch dh bh
        if (f->r8[i] && c >= 4 && c < 8 && (uint64_t)!rex != o[i].high) return 16;
        break;
      }
      case 4: {
        if (p + f->imm[i] > n) return 17;
        if (sext(le(b + p, f->imm[i]), f->imm[i]) != o[i].imm) return 18;
        p += f->imm[i];
        break;
      }
    }
  }
  return p == n ? 0 : 19;
}
