// Reference: decoding x86-64, from the manual (vol. 2, 2.1 Instruction format, 2.2.1 REX prefixes). One instruction of a
// known form is decoded and its operands are compared with the ones that were meant.
#pragma once
#include <stdint.h>
typedef struct { uint8_t npp, pp[2], w, nop, op[4], plus; int8_t modrm; uint8_t role[3], imm[3], r8[3]; } Form;
// an operand: reg = its number; of 8-bit registers, 4..7 are ah ch dh bh if high and spl bpl sil dil otherwise
typedef struct { uint64_t code, high; int64_t imm; } Operand;
// a memory operand: base 0 none, 1 rip, 2 register
typedef struct { uint64_t base, code, has_index, index, scale; int64_t disp; } Mem;
