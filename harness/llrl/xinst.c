#include "symx.h"
#include "../asmx/x86.c"
static Operand o[3]; static Mem m; static uint8_t b[32]; static uint64_t n, is_mem, k; static int bad;
void xi_op(uint64_t i, uint64_t code, uint64_t high, int64_t imm) { o[i].code = code; o[i].high = high; o[i].imm = imm; }
void xi_mem(uint64_t base, uint64_t code, uint64_t has_index, uint64_t index, uint64_t scale, int64_t disp) {
  is_mem = 1; m.base = base; m.code = code; m.has_index = has_index; m.index = has_index ? index : 0; m.scale = has_index ? scale : 1; m.disp = disp;
}
uint64_t xi_choose(uint64_t n) { uint64_t v = symx_int(16); symx_assume(v < n); return v; }
uint64_t xi_pick(uint64_t n) { return symx_concretize(xi_choose(n)); }
void xi_assume(uint8_t c) { symx_assume(c & 1); }
int64_t xi_imm(uint64_t i, uint64_t bits) { return (int64_t)(symx_int(bits) << (64 - bits)) >> (64 - bits); }
void xi_begin(uint64_t form) { k = form; bad = x86_impossible(k, o, is_mem, &m) != 0; symx_panic_ok(bad); }
void xi_byte(uint64_t v) { symx_assert(n < 32, "an instruction is at most 15 bytes"); b[n++] = v; }
void xi_end(void) {
  symx_panic_ok(0);
  symx_assert(!bad, "an instruction that has no encoding is refused");
  symx_assert(x86_wrong(k, b, n, o, is_mem, &m) == 0, "the bytes are the instruction with these operands");
  for (unsigned i = 0; i < n; i++) symx_observe(2, b[i]);
  symx_reach(1000 + k);
}
