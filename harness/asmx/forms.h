{0,{0,0},0,1,{0x12,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,1,0}}, // 0 Adcb Gpr8 Gpr8: 12 /r
{0,{0,0},0,1,{0x12,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,0,0}}, // 1 Adcb Gpr8 Memory: 12 /r
{0,{0,0},0,1,{0x10,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 2 Adcb Memory Gpr8: 10 /r
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{1,0,0}}, // 3 Adcb Gpr8 i8: 80 /2 ib
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 4 Adcb Memory i8: 80 /2 ib
{0,{0,0},0,1,{0x14,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 5 Adcb _Al i8: 14 ib
{0,{0,0},0,1,{0x13,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 6 Adcl Gpr32 Gpr32: 13 /r
{0,{0,0},0,1,{0x13,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 7 Adcl Gpr32 Memory: 13 /r
{0,{0,0},0,1,{0x11,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 8 Adcl Memory Gpr32: 11 /r
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 9 Adcl Gpr32 i8: 83 /2 ib
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 10 Adcl Memory i8: 83 /2 ib
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,2,{2,4,0},{0,4,0},{0,0,0}}, // 11 Adcl Gpr32 i32: 81 /2 id
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,2,{2,4,0},{0,4,0},{0,0,0}}, // 12 Adcl Memory i32: 81 /2 id
{0,{0,0},0,1,{0x15,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 13 Adcl _Eax i32: 15 id
{0,{0,0},1,1,{0x13,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 14 Adcq Gpr64 Gpr64: REX.W+ 13 /r
{0,{0,0},1,1,{0x13,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 15 Adcq Gpr64 Memory: REX.W+ 13 /r
{0,{0,0},1,1,{0x11,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 16 Adcq Memory Gpr64: REX.W+ 11 /r
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 17 Adcq Gpr64 i8: REX.W+ 83 /2 ib
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 18 Adcq Memory i8: REX.W+ 83 /2 ib
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,2,{2,4,0},{0,4,0},{0,0,0}}, // 19 Adcq Gpr64 i32: REX.W+ 81 /2 id
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,2,{2,4,0},{0,4,0},{0,0,0}}, // 20 Adcq Memory i32: REX.W+ 81 /2 id
{0,{0,0},1,1,{0x15,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 21 Adcq _Rax i32: REX.W+ 15 id
{1,{102,0},0,1,{0x13,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 22 Adcw Gpr16 Gpr16: 66 13 /r
{1,{102,0},0,1,{0x13,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 23 Adcw Gpr16 Memory: 66 13 /r
{1,{102,0},0,1,{0x11,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 24 Adcw Memory Gpr16: 66 11 /r
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 25 Adcw Gpr16 i8: 66 83 /2 ib
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 26 Adcw Memory i8: 66 83 /2 ib
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,2,{2,4,0},{0,2,0},{0,0,0}}, // 27 Adcw Gpr16 i16: 66 81 /2 iw
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,2,{2,4,0},{0,2,0},{0,0,0}}, // 28 Adcw Memory i16: 66 81 /2 iw
{1,{102,0},0,1,{0x15,0x0,0x0,0x0},0,-1,{0,4,0},{0,2,0},{0,0,0}}, // 29 Adcw _Ax i16: 66 15 iw
{0,{0,0},0,1,{0x2,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,1,0}}, // 30 Addb Gpr8 Gpr8: 02 /r
{0,{0,0},0,1,{0x2,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,0,0}}, // 31 Addb Gpr8 Memory: 02 /r
{0,{0,0},0,1,{0x0,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 32 Addb Memory Gpr8: 00 /r
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{1,0,0}}, // 33 Addb Gpr8 i8: 80 /0 ib
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 34 Addb Memory i8: 80 /0 ib
{0,{0,0},0,1,{0x4,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 35 Addb _Al i8: 04 ib
{0,{0,0},0,1,{0x3,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 36 Addl Gpr32 Gpr32: 03 /r
{0,{0,0},0,1,{0x3,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 37 Addl Gpr32 Memory: 03 /r
{0,{0,0},0,1,{0x1,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 38 Addl Memory Gpr32: 01 /r
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 39 Addl Gpr32 i8: 83 /0 ib
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 40 Addl Memory i8: 83 /0 ib
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,0,{2,4,0},{0,4,0},{0,0,0}}, // 41 Addl Gpr32 i32: 81 /0 id
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,0,{2,4,0},{0,4,0},{0,0,0}}, // 42 Addl Memory i32: 81 /0 id
{0,{0,0},0,1,{0x5,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 43 Addl _Eax i32: 05 id
{1,{102,0},0,2,{0xf,0x58,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 44 Addpd Xmm Xmm: 66 0F 58 /r
{1,{102,0},0,2,{0xf,0x58,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 45 Addpd Xmm Memory: 66 0F 58 /r
{0,{0,0},0,2,{0xf,0x58,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 46 Addps Xmm Xmm: 0F 58 /r
{0,{0,0},0,2,{0xf,0x58,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 47 Addps Xmm Memory: 0F 58 /r
{0,{0,0},1,1,{0x3,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 48 Addq Gpr64 Gpr64: REX.W+ 03 /r
{0,{0,0},1,1,{0x3,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 49 Addq Gpr64 Memory: REX.W+ 03 /r
{0,{0,0},1,1,{0x1,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 50 Addq Memory Gpr64: REX.W+ 01 /r
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 51 Addq Gpr64 i8: REX.W+ 83 /0 ib
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 52 Addq Memory i8: REX.W+ 83 /0 ib
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,0,{2,4,0},{0,4,0},{0,0,0}}, // 53 Addq Gpr64 i32: REX.W+ 81 /0 id
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,0,{2,4,0},{0,4,0},{0,0,0}}, // 54 Addq Memory i32: REX.W+ 81 /0 id
{0,{0,0},1,1,{0x5,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 55 Addq _Rax i32: REX.W+ 05 id
{1,{242,0},0,2,{0xf,0x58,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 56 Addsd Xmm Xmm: F2 0F 58 /r
{1,{242,0},0,2,{0xf,0x58,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 57 Addsd Xmm Memory: F2 0F 58 /r
{1,{243,0},0,2,{0xf,0x58,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 58 Addss Xmm Xmm: F3 0F 58 /r
{1,{243,0},0,2,{0xf,0x58,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 59 Addss Xmm Memory: F3 0F 58 /r
{1,{102,0},0,1,{0x3,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 60 Addw Gpr16 Gpr16: 66 03 /r
{1,{102,0},0,1,{0x3,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 61 Addw Gpr16 Memory: 66 03 /r
{1,{102,0},0,1,{0x1,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 62 Addw Memory Gpr16: 66 01 /r
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 63 Addw Gpr16 i8: 66 83 /0 ib
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 64 Addw Memory i8: 66 83 /0 ib
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,0,{2,4,0},{0,2,0},{0,0,0}}, // 65 Addw Gpr16 i16: 66 81 /0 iw
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,0,{2,4,0},{0,2,0},{0,0,0}}, // 66 Addw Memory i16: 66 81 /0 iw
{1,{102,0},0,1,{0x5,0x0,0x0,0x0},0,-1,{0,4,0},{0,2,0},{0,0,0}}, // 67 Addw _Ax i16: 66 05 iw
{0,{0,0},0,1,{0x22,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,1,0}}, // 68 Andb Gpr8 Gpr8: 22 /r
{0,{0,0},0,1,{0x22,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,0,0}}, // 69 Andb Gpr8 Memory: 22 /r
{0,{0,0},0,1,{0x20,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 70 Andb Memory Gpr8: 20 /r
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{1,0,0}}, // 71 Andb Gpr8 i8: 80 /4 ib
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 72 Andb Memory i8: 80 /4 ib
{0,{0,0},0,1,{0x24,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 73 Andb _Al i8: 24 ib
{0,{0,0},0,1,{0x23,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 74 Andl Gpr32 Gpr32: 23 /r
{0,{0,0},0,1,{0x23,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 75 Andl Gpr32 Memory: 23 /r
{0,{0,0},0,1,{0x21,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 76 Andl Memory Gpr32: 21 /r
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 77 Andl Gpr32 i8: 83 /4 ib
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 78 Andl Memory i8: 83 /4 ib
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,4,{2,4,0},{0,4,0},{0,0,0}}, // 79 Andl Gpr32 i32: 81 /4 id
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,4,{2,4,0},{0,4,0},{0,0,0}}, // 80 Andl Memory i32: 81 /4 id
{0,{0,0},0,1,{0x25,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 81 Andl _Eax i32: 25 id
{1,{102,0},0,2,{0xf,0x55,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 82 Andnpd Xmm Xmm: 66 0F 55 /r
{1,{102,0},0,2,{0xf,0x55,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 83 Andnpd Xmm Memory: 66 0F 55 /r
{0,{0,0},0,2,{0xf,0x55,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 84 Andnps Xmm Xmm: 0F 55 /r
{0,{0,0},0,2,{0xf,0x55,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 85 Andnps Xmm Memory: 0F 55 /r
{1,{102,0},0,2,{0xf,0x54,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 86 Andpd Xmm Xmm: 66 0F 54 /r
{1,{102,0},0,2,{0xf,0x54,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 87 Andpd Xmm Memory: 66 0F 54 /r
{0,{0,0},0,2,{0xf,0x54,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 88 Andps Xmm Xmm: 0F 54 /r
{0,{0,0},0,2,{0xf,0x54,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 89 Andps Xmm Memory: 0F 54 /r
{0,{0,0},1,1,{0x23,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 90 Andq Gpr64 Gpr64: REX.W+ 23 /r
{0,{0,0},1,1,{0x23,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 91 Andq Gpr64 Memory: REX.W+ 23 /r
{0,{0,0},1,1,{0x21,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 92 Andq Memory Gpr64: REX.W+ 21 /r
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 93 Andq Gpr64 i8: REX.W+ 83 /4 ib
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 94 Andq Memory i8: REX.W+ 83 /4 ib
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,4,{2,4,0},{0,4,0},{0,0,0}}, // 95 Andq Gpr64 i32: REX.W+ 81 /4 id
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,4,{2,4,0},{0,4,0},{0,0,0}}, // 96 Andq Memory i32: REX.W+ 81 /4 id
{0,{0,0},1,1,{0x25,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 97 Andq _Rax i32: REX.W+ 25 id
{1,{102,0},0,1,{0x23,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 98 Andw Gpr16 Gpr16: 66 23 /r
{1,{102,0},0,1,{0x23,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 99 Andw Gpr16 Memory: 66 23 /r
{1,{102,0},0,1,{0x21,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 100 Andw Memory Gpr16: 66 21 /r
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 101 Andw Gpr16 i8: 66 83 /4 ib
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 102 Andw Memory i8: 66 83 /4 ib
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,4,{2,4,0},{0,2,0},{0,0,0}}, // 103 Andw Gpr16 i16: 66 81 /4 iw
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,4,{2,4,0},{0,2,0},{0,0,0}}, // 104 Andw Memory i16: 66 81 /4 iw
{1,{102,0},0,1,{0x25,0x0,0x0,0x0},0,-1,{0,4,0},{0,2,0},{0,0,0}}, // 105 Andw _Ax i16: 66 25 iw
{1,{102,0},0,3,{0xf,0x3a,0xd,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 106 Blendpd Xmm Xmm i8: 66 0F 3A 0D /r ib
{1,{102,0},0,3,{0xf,0x3a,0xd,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 107 Blendpd Xmm Memory i8: 66 0F 3A 0D /r ib
{1,{102,0},0,3,{0xf,0x3a,0xc,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 108 Blendps Xmm Xmm i8: 66 0F 3A 0C /r ib
{1,{102,0},0,3,{0xf,0x3a,0xc,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 109 Blendps Xmm Memory i8: 66 0F 3A 0C /r ib
{1,{102,0},0,3,{0xf,0x38,0x15,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 110 Blendvpd Xmm Xmm _Xmm0: 66 0F 38 15 /r
{1,{102,0},0,3,{0xf,0x38,0x15,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 111 Blendvpd Xmm Memory _Xmm0: 66 0F 38 15 /r
{1,{102,0},0,3,{0xf,0x38,0x14,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 112 Blendvps Xmm Xmm _Xmm0: 66 0F 38 14 /r
{1,{102,0},0,3,{0xf,0x38,0x14,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 113 Blendvps Xmm Memory _Xmm0: 66 0F 38 14 /r
{0,{0,0},0,2,{0xf,0xbc,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 114 Bsfl Gpr32 Gpr32: 0F BC /r
{0,{0,0},0,2,{0xf,0xbc,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 115 Bsfl Gpr32 Memory: 0F BC /r
{0,{0,0},1,2,{0xf,0xbc,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 116 Bsfq Gpr64 Gpr64: REX.W+ 0F BC /r
{0,{0,0},1,2,{0xf,0xbc,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 117 Bsfq Gpr64 Memory: REX.W+ 0F BC /r
{1,{102,0},0,2,{0xf,0xbc,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 118 Bsfw Gpr16 Gpr16: 66 0F BC /r
{1,{102,0},0,2,{0xf,0xbc,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 119 Bsfw Gpr16 Memory: 66 0F BC /r
{0,{0,0},0,2,{0xf,0xbd,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 120 Bsrl Gpr32 Gpr32: 0F BD /r
{0,{0,0},0,2,{0xf,0xbd,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 121 Bsrl Gpr32 Memory: 0F BD /r
{0,{0,0},1,2,{0xf,0xbd,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 122 Bsrq Gpr64 Gpr64: REX.W+ 0F BD /r
{0,{0,0},1,2,{0xf,0xbd,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 123 Bsrq Gpr64 Memory: REX.W+ 0F BD /r
{1,{102,0},0,2,{0xf,0xbd,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 124 Bsrw Gpr16 Gpr16: 66 0F BD /r
{1,{102,0},0,2,{0xf,0xbd,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 125 Bsrw Gpr16 Memory: 66 0F BD /r
{0,{0,0},0,2,{0xf,0xc8,0x0,0x0},1,-1,{3,0,0},{0,0,0},{0,0,0}}, // 126 Bswap Gpr32: 0F C8 +rd
{0,{0,0},1,2,{0xf,0xc8,0x0,0x0},1,-1,{3,0,0},{0,0,0},{0,0,0}}, // 127 Bswap Gpr64: REX.W+ 0F C8 +ro
{0,{0,0},0,2,{0xf,0xbb,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 128 Btcl Gpr32 Gpr32: 0F BB /r
{0,{0,0},0,2,{0xf,0xbb,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 129 Btcl Memory Gpr32: 0F BB /r
{0,{0,0},0,2,{0xf,0xba,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 130 Btcl Gpr32 i8: 0F BA /7 ib
{0,{0,0},0,2,{0xf,0xba,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 131 Btcl Memory i8: 0F BA /7 ib
{0,{0,0},1,2,{0xf,0xbb,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 132 Btcq Gpr64 Gpr64: REX.W+ 0F BB /r
{0,{0,0},1,2,{0xf,0xbb,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 133 Btcq Memory Gpr64: REX.W+ 0F BB /r
{0,{0,0},1,2,{0xf,0xba,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 134 Btcq Gpr64 i8: REX.W+ 0F BA /7 ib
{0,{0,0},1,2,{0xf,0xba,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 135 Btcq Memory i8: REX.W+ 0F BA /7 ib
{1,{102,0},0,2,{0xf,0xbb,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 136 Btcw Gpr16 Gpr16: 66 0F BB /r
{1,{102,0},0,2,{0xf,0xbb,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 137 Btcw Memory Gpr16: 66 0F BB /r
{1,{102,0},0,2,{0xf,0xba,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 138 Btcw Gpr16 i8: 66 0F BA /7 ib
{1,{102,0},0,2,{0xf,0xba,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 139 Btcw Memory i8: 66 0F BA /7 ib
{0,{0,0},0,2,{0xf,0xa3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 140 Btl Gpr32 Gpr32: 0F A3 /r
{0,{0,0},0,2,{0xf,0xa3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 141 Btl Memory Gpr32: 0F A3 /r
{0,{0,0},0,2,{0xf,0xba,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 142 Btl Gpr32 i8: 0F BA /4 ib
{0,{0,0},0,2,{0xf,0xba,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 143 Btl Memory i8: 0F BA /4 ib
{0,{0,0},1,2,{0xf,0xa3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 144 Btq Gpr64 Gpr64: REX.W+ 0F A3 /r
{0,{0,0},1,2,{0xf,0xa3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 145 Btq Memory Gpr64: REX.W+ 0F A3 /r
{0,{0,0},1,2,{0xf,0xba,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 146 Btq Gpr64 i8: REX.W+ 0F BA /4 ib
{0,{0,0},1,2,{0xf,0xba,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 147 Btq Memory i8: REX.W+ 0F BA /4 ib
{0,{0,0},0,2,{0xf,0xb3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 148 Btrl Gpr32 Gpr32: 0F B3 /r
{0,{0,0},0,2,{0xf,0xb3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 149 Btrl Memory Gpr32: 0F B3 /r
{0,{0,0},0,2,{0xf,0xba,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 150 Btrl Gpr32 i8: 0F BA /6 ib
{0,{0,0},0,2,{0xf,0xba,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 151 Btrl Memory i8: 0F BA /6 ib
{0,{0,0},1,2,{0xf,0xb3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 152 Btrq Gpr64 Gpr64: REX.W+ 0F B3 /r
{0,{0,0},1,2,{0xf,0xb3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 153 Btrq Memory Gpr64: REX.W+ 0F B3 /r
{0,{0,0},1,2,{0xf,0xba,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 154 Btrq Gpr64 i8: REX.W+ 0F BA /6 ib
{0,{0,0},1,2,{0xf,0xba,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 155 Btrq Memory i8: REX.W+ 0F BA /6 ib
{1,{102,0},0,2,{0xf,0xb3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 156 Btrw Gpr16 Gpr16: 66 0F B3 /r
{1,{102,0},0,2,{0xf,0xb3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 157 Btrw Memory Gpr16: 66 0F B3 /r
{1,{102,0},0,2,{0xf,0xba,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 158 Btrw Gpr16 i8: 66 0F BA /6 ib
{1,{102,0},0,2,{0xf,0xba,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 159 Btrw Memory i8: 66 0F BA /6 ib
{0,{0,0},0,2,{0xf,0xab,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 160 Btsl Gpr32 Gpr32: 0F AB /r
{0,{0,0},0,2,{0xf,0xab,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 161 Btsl Memory Gpr32: 0F AB /r
{0,{0,0},0,2,{0xf,0xba,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 162 Btsl Gpr32 i8: 0F BA /5 ib
{0,{0,0},0,2,{0xf,0xba,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 163 Btsl Memory i8: 0F BA /5 ib
{0,{0,0},1,2,{0xf,0xab,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 164 Btsq Gpr64 Gpr64: REX.W+ 0F AB /r
{0,{0,0},1,2,{0xf,0xab,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 165 Btsq Memory Gpr64: REX.W+ 0F AB /r
{0,{0,0},1,2,{0xf,0xba,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 166 Btsq Gpr64 i8: REX.W+ 0F BA /5 ib
{0,{0,0},1,2,{0xf,0xba,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 167 Btsq Memory i8: REX.W+ 0F BA /5 ib
{1,{102,0},0,2,{0xf,0xab,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 168 Btsw Gpr16 Gpr16: 66 0F AB /r
{1,{102,0},0,2,{0xf,0xab,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 169 Btsw Memory Gpr16: 66 0F AB /r
{1,{102,0},0,2,{0xf,0xba,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 170 Btsw Gpr16 i8: 66 0F BA /5 ib
{1,{102,0},0,2,{0xf,0xba,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 171 Btsw Memory i8: 66 0F BA /5 ib
{1,{102,0},0,2,{0xf,0xa3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 172 Btw Gpr16 Gpr16: 66 0F A3 /r
{1,{102,0},0,2,{0xf,0xa3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 173 Btw Memory Gpr16: 66 0F A3 /r
{1,{102,0},0,2,{0xf,0xba,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 174 Btw Gpr16 i8: 66 0F BA /4 ib
{1,{102,0},0,2,{0xf,0xba,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 175 Btw Memory i8: 66 0F BA /4 ib
{0,{0,0},0,1,{0xe8,0x0,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 176 Callq i32: E8 cd
{0,{0,0},0,1,{0xff,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 177 Callq Gpr64: FF /2
{0,{0,0},0,1,{0xff,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 178 Callq Memory: FF /2
{1,{102,0},0,1,{0x98,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 179 Cbtw : 66 98
{0,{0,0},0,1,{0xf8,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 180 Clc : F8
{0,{0,0},0,1,{0xfc,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 181 Cld : FC
{0,{0,0},0,1,{0xfa,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 182 Cli : FA
{0,{0,0},0,1,{0x99,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 183 Cltd : 99
{0,{0,0},1,1,{0x98,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 184 Cltq : REX.W+ 98
{0,{0,0},0,2,{0xf,0x6,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 185 Clts : 0F 06
{0,{0,0},0,1,{0xf5,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 186 Cmc : F5
{0,{0,0},0,1,{0x3a,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,1,0}}, // 187 Cmpb Gpr8 Gpr8: 3A /r
{0,{0,0},0,1,{0x3a,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,0,0}}, // 188 Cmpb Gpr8 Memory: 3A /r
{0,{0,0},0,1,{0x38,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 189 Cmpb Memory Gpr8: 38 /r
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{1,0,0}}, // 190 Cmpb Gpr8 i8: 80 /7 ib
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 191 Cmpb Memory i8: 80 /7 ib
{0,{0,0},0,1,{0x3c,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 192 Cmpb _Al i8: 3C ib
{0,{0,0},0,1,{0x3b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 193 Cmpl Gpr32 Gpr32: 3B /r
{0,{0,0},0,1,{0x3b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 194 Cmpl Gpr32 Memory: 3B /r
{0,{0,0},0,1,{0x39,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 195 Cmpl Memory Gpr32: 39 /r
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 196 Cmpl Gpr32 i8: 83 /7 ib
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 197 Cmpl Memory i8: 83 /7 ib
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,7,{2,4,0},{0,4,0},{0,0,0}}, // 198 Cmpl Gpr32 i32: 81 /7 id
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,7,{2,4,0},{0,4,0},{0,0,0}}, // 199 Cmpl Memory i32: 81 /7 id
{0,{0,0},0,1,{0x3d,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 200 Cmpl _Eax i32: 3D id
{1,{102,0},0,2,{0xf,0xc2,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 201 Cmppd Xmm Xmm i8: 66 0F C2 /r ib
{1,{102,0},0,2,{0xf,0xc2,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 202 Cmppd Xmm Memory i8: 66 0F C2 /r ib
{0,{0,0},0,2,{0xf,0xc2,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 203 Cmpps Xmm Xmm i8: 0F C2 /r ib
{0,{0,0},0,2,{0xf,0xc2,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 204 Cmpps Xmm Memory i8: 0F C2 /r ib
{0,{0,0},1,1,{0x3b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 205 Cmpq Gpr64 Gpr64: REX.W+ 3B /r
{0,{0,0},1,1,{0x3b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 206 Cmpq Gpr64 Memory: REX.W+ 3B /r
{0,{0,0},1,1,{0x39,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 207 Cmpq Memory Gpr64: REX.W+ 39 /r
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 208 Cmpq Gpr64 i8: REX.W+ 83 /7 ib
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 209 Cmpq Memory i8: REX.W+ 83 /7 ib
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,7,{2,4,0},{0,4,0},{0,0,0}}, // 210 Cmpq Gpr64 i32: REX.W+ 81 /7 id
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,7,{2,4,0},{0,4,0},{0,0,0}}, // 211 Cmpq Memory i32: REX.W+ 81 /7 id
{0,{0,0},1,1,{0x3d,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 212 Cmpq _Rax i32: REX.W+ 3D id
{1,{242,0},0,2,{0xf,0xc2,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 213 Cmpsd Xmm Xmm i8: F2 0F C2 /r ib
{1,{242,0},0,2,{0xf,0xc2,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 214 Cmpsd Xmm Memory i8: F2 0F C2 /r ib
{0,{0,0},0,1,{0xa7,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 215 Cmpsl : A7
{1,{243,0},0,2,{0xf,0xc2,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 216 Cmpss Xmm Xmm i8: F3 0F C2 /r ib
{1,{243,0},0,2,{0xf,0xc2,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 217 Cmpss Xmm Memory i8: F3 0F C2 /r ib
{1,{102,0},0,1,{0x3b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 218 Cmpw Gpr16 Gpr16: 66 3B /r
{1,{102,0},0,1,{0x3b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 219 Cmpw Gpr16 Memory: 66 3B /r
{1,{102,0},0,1,{0x39,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 220 Cmpw Memory Gpr16: 66 39 /r
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 221 Cmpw Gpr16 i8: 66 83 /7 ib
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 222 Cmpw Memory i8: 66 83 /7 ib
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,7,{2,4,0},{0,2,0},{0,0,0}}, // 223 Cmpw Gpr16 i16: 66 81 /7 iw
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,7,{2,4,0},{0,2,0},{0,0,0}}, // 224 Cmpw Memory i16: 66 81 /7 iw
{1,{102,0},0,1,{0x3d,0x0,0x0,0x0},0,-1,{0,4,0},{0,2,0},{0,0,0}}, // 225 Cmpw _Ax i16: 66 3D iw
{0,{0,0},0,2,{0xf,0xb0,0x0,0x0},0,8,{2,1,0},{0,0,0},{1,1,0}}, // 226 Cmpxchgb Gpr8 Gpr8: 0F B0 /r
{0,{0,0},0,2,{0xf,0xb0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 227 Cmpxchgb Memory Gpr8: 0F B0 /r
{0,{0,0},0,2,{0xf,0xb1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 228 Cmpxchgl Gpr32 Gpr32: 0F B1 /r
{0,{0,0},0,2,{0xf,0xb1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 229 Cmpxchgl Memory Gpr32: 0F B1 /r
{0,{0,0},1,2,{0xf,0xb1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 230 Cmpxchgq Gpr64 Gpr64: REX.W+ 0F B1 /r
{0,{0,0},1,2,{0xf,0xb1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 231 Cmpxchgq Memory Gpr64: REX.W+ 0F B1 /r
{1,{102,0},0,2,{0xf,0xb1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 232 Cmpxchgw Gpr16 Gpr16: 66 0F B1 /r
{1,{102,0},0,2,{0xf,0xb1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 233 Cmpxchgw Memory Gpr16: 66 0F B1 /r
{1,{102,0},0,2,{0xf,0x2f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 234 Comisd Xmm Xmm: 66 0F 2F /r
{1,{102,0},0,2,{0xf,0x2f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 235 Comisd Xmm Memory: 66 0F 2F /r
{0,{0,0},0,2,{0xf,0x2f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 236 Comiss Xmm Xmm: 0F 2F /r
{0,{0,0},0,2,{0xf,0x2f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 237 Comiss Xmm Memory: 0F 2F /r
{0,{0,0},0,2,{0xf,0xa2,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 238 Cpuid : 0F A2
{0,{0,0},1,1,{0x99,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 239 Cqto : REX.W+ 99
{1,{242,0},0,3,{0xf,0x38,0xf0,0x0},0,8,{1,2,0},{0,0,0},{0,1,0}}, // 240 Crc32b Gpr32 Gpr8: F2 0F 38 F0 /r
{1,{242,0},0,3,{0xf,0x38,0xf0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 241 Crc32b Gpr32 Memory: F2 0F 38 F0 /r
{1,{242,0},1,3,{0xf,0x38,0xf0,0x0},0,8,{1,2,0},{0,0,0},{0,1,0}}, // 242 Crc32b Gpr64 Gpr8: F2 REX.W+ 0F 38 F0 /r
{1,{242,0},1,3,{0xf,0x38,0xf0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 243 Crc32b Gpr64 Memory: F2 REX.W+ 0F 38 F0 /r
{1,{242,0},0,3,{0xf,0x38,0xf1,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 244 Crc32l Gpr32 Gpr32: F2 0F 38 F1 /r
{1,{242,0},0,3,{0xf,0x38,0xf1,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 245 Crc32l Gpr32 Memory: F2 0F 38 F1 /r
{1,{242,0},1,3,{0xf,0x38,0xf1,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 246 Crc32q Gpr64 Gpr64: F2 REX.W+ 0F 38 F1 /r
{1,{242,0},1,3,{0xf,0x38,0xf1,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 247 Crc32q Gpr64 Memory: F2 REX.W+ 0F 38 F1 /r
{2,{242,102},0,3,{0xf,0x38,0xf1,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 248 Crc32w Gpr32 Gpr16: F2 66 0F 38 F1 /r
{2,{242,102},0,3,{0xf,0x38,0xf1,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 249 Crc32w Gpr32 Memory: F2 66 0F 38 F1 /r
{1,{243,0},0,2,{0xf,0xe6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 250 Cvtdq2pd Xmm Xmm: F3 0F E6 /r
{1,{243,0},0,2,{0xf,0xe6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 251 Cvtdq2pd Xmm Memory: F3 0F E6 /r
{0,{0,0},0,2,{0xf,0x5b,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 252 Cvtdq2ps Xmm Xmm: 0F 5B /r
{0,{0,0},0,2,{0xf,0x5b,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 253 Cvtdq2ps Xmm Memory: 0F 5B /r
{1,{242,0},0,2,{0xf,0xe6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 254 Cvtpd2dq Xmm Xmm: F2 0F E6 /r
{1,{242,0},0,2,{0xf,0xe6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 255 Cvtpd2dq Xmm Memory: F2 0F E6 /r
{1,{102,0},0,2,{0xf,0x5a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 256 Cvtpd2ps Xmm Xmm: 66 0F 5A /r
{1,{102,0},0,2,{0xf,0x5a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 257 Cvtpd2ps Xmm Memory: 66 0F 5A /r
{1,{102,0},0,2,{0xf,0x5b,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 258 Cvtps2dq Xmm Xmm: 66 0F 5B /r
{1,{102,0},0,2,{0xf,0x5b,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 259 Cvtps2dq Xmm Memory: 66 0F 5B /r
{0,{0,0},0,2,{0xf,0x5a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 260 Cvtps2pd Xmm Xmm: 0F 5A /r
{0,{0,0},0,2,{0xf,0x5a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 261 Cvtps2pd Xmm Memory: 0F 5A /r
{1,{242,0},0,2,{0xf,0x2d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 262 Cvtsd2si Gpr32 Xmm: F2 0F 2D /r
{1,{242,0},0,2,{0xf,0x2d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 263 Cvtsd2si Gpr32 Memory: F2 0F 2D /r
{1,{242,0},1,2,{0xf,0x2d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 264 Cvtsd2si Gpr64 Xmm: F2 REX.W+ 0F 2D /r
{1,{242,0},1,2,{0xf,0x2d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 265 Cvtsd2si Gpr64 Memory: F2 REX.W+ 0F 2D /r
{1,{242,0},0,2,{0xf,0x5a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 266 Cvtsd2ss Xmm Xmm: F2 0F 5A /r
{1,{242,0},0,2,{0xf,0x5a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 267 Cvtsd2ss Xmm Memory: F2 0F 5A /r
{1,{242,0},0,2,{0xf,0x2a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 268 Cvtsi2sdl Xmm Gpr32: F2 0F 2A /r
{1,{242,0},0,2,{0xf,0x2a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 269 Cvtsi2sdl Xmm Memory: F2 0F 2A /r
{1,{242,0},1,2,{0xf,0x2a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 270 Cvtsi2sdq Xmm Gpr64: F2 REX.W+ 0F 2A /r
{1,{242,0},1,2,{0xf,0x2a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 271 Cvtsi2sdq Xmm Memory: F2 REX.W+ 0F 2A /r
{1,{243,0},0,2,{0xf,0x2a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 272 Cvtsi2ssl Xmm Gpr32: F3 0F 2A /r
{1,{243,0},0,2,{0xf,0x2a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 273 Cvtsi2ssl Xmm Memory: F3 0F 2A /r
{1,{243,0},1,2,{0xf,0x2a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 274 Cvtsi2ssq Xmm Gpr64: F3 REX.W+ 0F 2A /r
{1,{243,0},1,2,{0xf,0x2a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 275 Cvtsi2ssq Xmm Memory: F3 REX.W+ 0F 2A /r
{1,{243,0},0,2,{0xf,0x5a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 276 Cvtss2sd Xmm Xmm: F3 0F 5A /r
{1,{243,0},0,2,{0xf,0x5a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 277 Cvtss2sd Xmm Memory: F3 0F 5A /r
{1,{243,0},0,2,{0xf,0x2d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 278 Cvtss2si Gpr32 Xmm: F3 0F 2D /r
{1,{243,0},0,2,{0xf,0x2d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 279 Cvtss2si Gpr32 Memory: F3 0F 2D /r
{1,{243,0},1,2,{0xf,0x2d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 280 Cvtss2si Gpr64 Xmm: F3 REX.W+ 0F 2D /r
{1,{243,0},1,2,{0xf,0x2d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 281 Cvtss2si Gpr64 Memory: F3 REX.W+ 0F 2D /r
{1,{102,0},0,2,{0xf,0xe6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 282 Cvttpd2dq Xmm Xmm: 66 0F E6 /r
{1,{102,0},0,2,{0xf,0xe6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 283 Cvttpd2dq Xmm Memory: 66 0F E6 /r
{1,{243,0},0,2,{0xf,0x5b,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 284 Cvttps2dq Xmm Xmm: F3 0F 5B /r
{1,{243,0},0,2,{0xf,0x5b,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 285 Cvttps2dq Xmm Memory: F3 0F 5B /r
{1,{242,0},0,2,{0xf,0x2c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 286 Cvttsd2si Gpr32 Xmm: F2 0F 2C /r
{1,{242,0},0,2,{0xf,0x2c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 287 Cvttsd2si Gpr32 Memory: F2 0F 2C /r
{1,{242,0},1,2,{0xf,0x2c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 288 Cvttsd2si Gpr64 Xmm: F2 REX.W+ 0F 2C /r
{1,{242,0},1,2,{0xf,0x2c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 289 Cvttsd2si Gpr64 Memory: F2 REX.W+ 0F 2C /r
{1,{243,0},0,2,{0xf,0x2c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 290 Cvttss2si Gpr32 Xmm: F3 0F 2C /r
{1,{243,0},0,2,{0xf,0x2c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 291 Cvttss2si Gpr32 Memory: F3 0F 2C /r
{1,{243,0},1,2,{0xf,0x2c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 292 Cvttss2si Gpr64 Xmm: F3 REX.W+ 0F 2C /r
{1,{243,0},1,2,{0xf,0x2c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 293 Cvttss2si Gpr64 Memory: F3 REX.W+ 0F 2C /r
{1,{102,0},0,1,{0x99,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 294 Cwtd : 66 99
{0,{0,0},0,1,{0x98,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 295 Cwtl : 98
{0,{0,0},0,1,{0xfe,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{1,0,0}}, // 296 Decb Gpr8: FE /1
{0,{0,0},0,1,{0xfe,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 297 Decb Memory: FE /1
{0,{0,0},0,1,{0xff,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 298 Decl Gpr32: FF /1
{0,{0,0},0,1,{0xff,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 299 Decl Memory: FF /1
{0,{0,0},1,1,{0xff,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 300 Decq Gpr64: REX.W+ FF /1
{0,{0,0},1,1,{0xff,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 301 Decq Memory: REX.W+ FF /1
{1,{102,0},0,1,{0xff,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 302 Decw Gpr16: 66 FF /1
{1,{102,0},0,1,{0xff,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 303 Decw Memory: 66 FF /1
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,6,{2,0,0},{0,0,0},{1,0,0}}, // 304 Divb Gpr8: F6 /6
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,6,{2,0,0},{0,0,0},{0,0,0}}, // 305 Divb Memory: F6 /6
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,6,{2,0,0},{0,0,0},{0,0,0}}, // 306 Divl Gpr32: F7 /6
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,6,{2,0,0},{0,0,0},{0,0,0}}, // 307 Divl Memory: F7 /6
{1,{102,0},0,2,{0xf,0x5e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 308 Divpd Xmm Xmm: 66 0F 5E /r
{1,{102,0},0,2,{0xf,0x5e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 309 Divpd Xmm Memory: 66 0F 5E /r
{0,{0,0},0,2,{0xf,0x5e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 310 Divps Xmm Xmm: 0F 5E /r
{0,{0,0},0,2,{0xf,0x5e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 311 Divps Xmm Memory: 0F 5E /r
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,6,{2,0,0},{0,0,0},{0,0,0}}, // 312 Divq Gpr64: REX.W+ F7 /6
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,6,{2,0,0},{0,0,0},{0,0,0}}, // 313 Divq Memory: REX.W+ F7 /6
{1,{242,0},0,2,{0xf,0x5e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 314 Divsd Xmm Xmm: F2 0F 5E /r
{1,{242,0},0,2,{0xf,0x5e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 315 Divsd Xmm Memory: F2 0F 5E /r
{1,{243,0},0,2,{0xf,0x5e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 316 Divss Xmm Xmm: F3 0F 5E /r
{1,{243,0},0,2,{0xf,0x5e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 317 Divss Xmm Memory: F3 0F 5E /r
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,6,{2,0,0},{0,0,0},{0,0,0}}, // 318 Divw Gpr16: 66 F7 /6
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,6,{2,0,0},{0,0,0},{0,0,0}}, // 319 Divw Memory: 66 F7 /6
{1,{102,0},0,3,{0xf,0x3a,0x41,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 320 Dppd Xmm Xmm i8: 66 0F 3A 41 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x41,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 321 Dppd Xmm Memory i8: 66 0F 3A 41 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x40,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 322 Dpps Xmm Xmm i8: 66 0F 3A 40 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x40,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 323 Dpps Xmm Memory i8: 66 0F 3A 40 /r ib
{0,{0,0},0,2,{0xf,0x77,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 324 Emms : 0F 77
{1,{102,0},0,3,{0xf,0x3a,0x17,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 325 Extractps Gpr64 Xmm i8: 66 0F 3A 17 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x17,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 326 Extractps Memory Xmm i8: 66 0F 3A 17 /r ib
{0,{0,0},0,1,{0xf4,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 327 Hlt : F4
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{1,0,0}}, // 328 Idivb Gpr8: F6 /7
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 329 Idivb Memory: F6 /7
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 330 Idivl Gpr32: F7 /7
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 331 Idivl Memory: F7 /7
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 332 Idivq Gpr64: REX.W+ F7 /7
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 333 Idivq Memory: REX.W+ F7 /7
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 334 Idivw Gpr16: 66 F7 /7
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 335 Idivw Memory: 66 F7 /7
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{1,0,0}}, // 336 Imulb Gpr8: F6 /5
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 337 Imulb Memory: F6 /5
{0,{0,0},0,1,{0x6b,0x0,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 338 Imull Gpr32 Gpr32 i8: 6B /r ib
{0,{0,0},0,1,{0x6b,0x0,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 339 Imull Gpr32 Memory i8: 6B /r ib
{0,{0,0},0,1,{0x69,0x0,0x0,0x0},0,8,{1,2,4},{0,0,4},{0,0,0}}, // 340 Imull Gpr32 Gpr32 i32: 69 /r id
{0,{0,0},0,1,{0x69,0x0,0x0,0x0},0,8,{1,2,4},{0,0,4},{0,0,0}}, // 341 Imull Gpr32 Memory i32: 69 /r id
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 342 Imull1 Gpr32: F7 /5
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 343 Imull1 Memory: F7 /5
{0,{0,0},0,2,{0xf,0xaf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 344 Imull2 Gpr32 Gpr32: 0F AF /r
{0,{0,0},0,2,{0xf,0xaf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 345 Imull2 Gpr32 Memory: 0F AF /r
{0,{0,0},1,1,{0x6b,0x0,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 346 Imulq Gpr64 Gpr64 i8: REX.W+ 6B /r ib
{0,{0,0},1,1,{0x6b,0x0,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 347 Imulq Gpr64 Memory i8: REX.W+ 6B /r ib
{0,{0,0},1,1,{0x69,0x0,0x0,0x0},0,8,{1,2,4},{0,0,4},{0,0,0}}, // 348 Imulq Gpr64 Gpr64 i32: REX.W+ 69 /r id
{0,{0,0},1,1,{0x69,0x0,0x0,0x0},0,8,{1,2,4},{0,0,4},{0,0,0}}, // 349 Imulq Gpr64 Memory i32: REX.W+ 69 /r id
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 350 Imulq1 Gpr64: REX.W+ F7 /5
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 351 Imulq1 Memory: REX.W+ F7 /5
{0,{0,0},1,2,{0xf,0xaf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 352 Imulq2 Gpr64 Gpr64: REX.W+ 0F AF /r
{0,{0,0},1,2,{0xf,0xaf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 353 Imulq2 Gpr64 Memory: REX.W+ 0F AF /r
{1,{102,0},0,1,{0x6b,0x0,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 354 Imulw Gpr16 Gpr16 i8: 66 6B /r ib
{1,{102,0},0,1,{0x6b,0x0,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 355 Imulw Gpr16 Memory i8: 66 6B /r ib
{1,{102,0},0,1,{0x69,0x0,0x0,0x0},0,8,{1,2,4},{0,0,2},{0,0,0}}, // 356 Imulw Gpr16 Gpr16 i16: 66 69 /r iw
{1,{102,0},0,1,{0x69,0x0,0x0,0x0},0,8,{1,2,4},{0,0,2},{0,0,0}}, // 357 Imulw Gpr16 Memory i16: 66 69 /r iw
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 358 Imulw1 Gpr16: 66 F7 /5
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 359 Imulw1 Memory: 66 F7 /5
{1,{102,0},0,2,{0xf,0xaf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 360 Imulw2 Gpr16 Gpr16: 66 0F AF /r
{1,{102,0},0,2,{0xf,0xaf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 361 Imulw2 Gpr16 Memory: 66 0F AF /r
{0,{0,0},0,1,{0xe4,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 362 Inb _Al i8: E4 ib
{0,{0,0},0,1,{0xec,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 363 Inb _Al _Dx: EC
{0,{0,0},0,1,{0xfe,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 364 Incb Gpr8: FE /0
{0,{0,0},0,1,{0xfe,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 365 Incb Memory: FE /0
{0,{0,0},0,1,{0xff,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 366 Incl Gpr32: FF /0
{0,{0,0},0,1,{0xff,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 367 Incl Memory: FF /0
{0,{0,0},1,1,{0xff,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 368 Incq Gpr64: REX.W+ FF /0
{0,{0,0},1,1,{0xff,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 369 Incq Memory: REX.W+ FF /0
{1,{102,0},0,1,{0xff,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 370 Incw Gpr16: 66 FF /0
{1,{102,0},0,1,{0xff,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 371 Incw Memory: 66 FF /0
{0,{0,0},0,1,{0xe5,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 372 Inl _Eax i8: E5 ib
{0,{0,0},0,1,{0xed,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 373 Inl _Eax _Dx: ED
{1,{102,0},0,3,{0xf,0x3a,0x21,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 374 Insertps Xmm Xmm i8: 66 0F 3A 21 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x21,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 375 Insertps Xmm Memory i8: 66 0F 3A 21 /r ib
{0,{0,0},0,1,{0xcd,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 376 Int i8: CD ib
{0,{0,0},0,1,{0xcc,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 377 Int _3: CC
{0,{0,0},0,2,{0xf,0x8,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 378 Invd : 0F 08
{0,{0,0},0,2,{0xf,0x1,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 379 Invlpg Memory: 0F 01 /7
{1,{102,0},0,1,{0xe5,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 380 Inw _Ax i8: 66 E5 ib
{1,{102,0},0,1,{0xed,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 381 Inw _Ax _Dx: 66 ED
{0,{0,0},0,1,{0xcf,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 382 Iretl : CF
{0,{0,0},1,1,{0xcf,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 383 Iretq : REX.W+ CF
{1,{102,0},0,1,{0xcf,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 384 Iretw : 66 CF
{0,{0,0},0,1,{0x77,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 385 Ja i8: 77 cb
{0,{0,0},0,2,{0xf,0x87,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 386 Ja i32: 0F 87 cd
{0,{0,0},0,1,{0x73,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 387 Jae i8: 73 cb
{0,{0,0},0,2,{0xf,0x83,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 388 Jae i32: 0F 83 cd
{0,{0,0},0,1,{0x72,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 389 Jb i8: 72 cb
{0,{0,0},0,2,{0xf,0x82,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 390 Jb i32: 0F 82 cd
{0,{0,0},0,1,{0x76,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 391 Jbe i8: 76 cb
{0,{0,0},0,2,{0xf,0x86,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 392 Jbe i32: 0F 86 cd
{0,{0,0},0,1,{0x72,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 393 Jc i8: 72 cb
{0,{0,0},0,2,{0xf,0x82,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 394 Jc i32: 0F 82 cd
{0,{0,0},0,1,{0x74,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 395 Je i8: 74 cb
{0,{0,0},0,2,{0xf,0x84,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 396 Je i32: 0F 84 cd
{0,{0,0},0,2,{0x67,0xe3,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 397 Jecxz i8: 67 E3 cb
{0,{0,0},0,1,{0x7f,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 398 Jg i8: 7F cb
{0,{0,0},0,2,{0xf,0x8f,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 399 Jg i32: 0F 8F cd
{0,{0,0},0,1,{0x7d,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 400 Jge i8: 7D cb
{0,{0,0},0,2,{0xf,0x8d,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 401 Jge i32: 0F 8D cd
{0,{0,0},0,1,{0x7c,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 402 Jl i8: 7C cb
{0,{0,0},0,2,{0xf,0x8c,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 403 Jl i32: 0F 8C cd
{0,{0,0},0,1,{0x7e,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 404 Jle i8: 7E cb
{0,{0,0},0,2,{0xf,0x8e,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 405 Jle i32: 0F 8E cd
{0,{0,0},0,1,{0xeb,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 406 Jmpq i8: EB cb
{0,{0,0},0,1,{0xe9,0x0,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 407 Jmpq i32: E9 cd
{0,{0,0},0,1,{0xff,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 408 Jmpq Gpr64: FF /4
{0,{0,0},0,1,{0xff,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 409 Jmpq Memory: FF /4
{0,{0,0},0,1,{0x76,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 410 Jna i8: 76 cb
{0,{0,0},0,2,{0xf,0x86,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 411 Jna i32: 0F 86 cd
{0,{0,0},0,1,{0x72,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 412 Jnae i8: 72 cb
{0,{0,0},0,2,{0xf,0x82,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 413 Jnae i32: 0F 82 cd
{0,{0,0},0,1,{0x73,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 414 Jnb i8: 73 cb
{0,{0,0},0,2,{0xf,0x83,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 415 Jnb i32: 0F 83 cd
{0,{0,0},0,1,{0x77,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 416 Jnbe i8: 77 cb
{0,{0,0},0,2,{0xf,0x87,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 417 Jnbe i32: 0F 87 cd
{0,{0,0},0,1,{0x73,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 418 Jnc i8: 73 cb
{0,{0,0},0,2,{0xf,0x83,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 419 Jnc i32: 0F 83 cd
{0,{0,0},0,1,{0x75,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 420 Jne i8: 75 cb
{0,{0,0},0,2,{0xf,0x85,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 421 Jne i32: 0F 85 cd
{0,{0,0},0,1,{0x7e,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 422 Jng i8: 7E cb
{0,{0,0},0,2,{0xf,0x8e,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 423 Jng i32: 0F 8E cd
{0,{0,0},0,1,{0x7c,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 424 Jnge i8: 7C cb
{0,{0,0},0,2,{0xf,0x8c,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 425 Jnge i32: 0F 8C cd
{0,{0,0},0,1,{0x7d,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 426 Jnl i8: 7D cb
{0,{0,0},0,2,{0xf,0x8d,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 427 Jnl i32: 0F 8D cd
{0,{0,0},0,1,{0x7f,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 428 Jnle i8: 7F cb
{0,{0,0},0,2,{0xf,0x8f,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 429 Jnle i32: 0F 8F cd
{0,{0,0},0,1,{0x71,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 430 Jno i8: 71 cb
{0,{0,0},0,2,{0xf,0x81,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 431 Jno i32: 0F 81 cd
{0,{0,0},0,1,{0x7b,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 432 Jnp i8: 7B cb
{0,{0,0},0,2,{0xf,0x8b,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 433 Jnp i32: 0F 8B cd
{0,{0,0},0,1,{0x79,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 434 Jns i8: 79 cb
{0,{0,0},0,2,{0xf,0x89,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 435 Jns i32: 0F 89 cd
{0,{0,0},0,1,{0x75,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 436 Jnz i8: 75 cb
{0,{0,0},0,2,{0xf,0x85,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 437 Jnz i32: 0F 85 cd
{0,{0,0},0,1,{0x70,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 438 Jo i8: 70 cb
{0,{0,0},0,2,{0xf,0x80,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 439 Jo i32: 0F 80 cd
{0,{0,0},0,1,{0x7a,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 440 Jp i8: 7A cb
{0,{0,0},0,2,{0xf,0x8a,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 441 Jp i32: 0F 8A cd
{0,{0,0},0,1,{0x7a,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 442 Jpe i8: 7A cb
{0,{0,0},0,2,{0xf,0x8a,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 443 Jpe i32: 0F 8A cd
{0,{0,0},0,1,{0x7b,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 444 Jpo i8: 7B cb
{0,{0,0},0,2,{0xf,0x8b,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 445 Jpo i32: 0F 8B cd
{0,{0,0},0,1,{0xe3,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 446 Jrcxz i8: E3 cb
{0,{0,0},0,1,{0x78,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 447 Js i8: 78 cb
{0,{0,0},0,2,{0xf,0x88,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 448 Js i32: 0F 88 cd
{0,{0,0},0,1,{0x74,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 449 Jz i8: 74 cb
{0,{0,0},0,2,{0xf,0x84,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 450 Jz i32: 0F 84 cd
{0,{0,0},0,2,{0xf,0xae,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 451 Ldmxcsr Memory: 0F AE /2
{0,{0,0},0,1,{0x8d,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 452 Leal Gpr32 Memory: 8D /r
{0,{0,0},1,1,{0x8d,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 453 Leaq Gpr64 Memory: REX.W+ 8D /r
{0,{0,0},0,1,{0xc9,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 454 Leaveq : C9
{1,{102,0},0,1,{0xc9,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 455 Leavew : 66 C9
{1,{102,0},0,1,{0x8d,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 456 Leaw Gpr16 Memory: 66 8D /r
{0,{0,0},0,3,{0xf,0xae,0xe8,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 457 Lfence : 0F AE E8
{0,{0,0},0,2,{0xf,0x1,0x0,0x0},0,6,{2,0,0},{0,0,0},{0,0,0}}, // 458 Lmsw Gpr16: 0F 01 /6
{0,{0,0},0,2,{0xf,0x1,0x0,0x0},0,6,{2,0,0},{0,0,0},{0,0,0}}, // 459 Lmsw Memory: 0F 01 /6
{0,{0,0},0,1,{0xf0,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 460 Lock : F0
{1,{102,0},0,2,{0xf,0xf7,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 461 Maskmovdqu Xmm Xmm: 66 0F F7 /r
{1,{102,0},0,2,{0xf,0x5f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 462 Maxpd Xmm Xmm: 66 0F 5F /r
{1,{102,0},0,2,{0xf,0x5f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 463 Maxpd Xmm Memory: 66 0F 5F /r
{0,{0,0},0,2,{0xf,0x5f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 464 Maxps Xmm Xmm: 0F 5F /r
{0,{0,0},0,2,{0xf,0x5f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 465 Maxps Xmm Memory: 0F 5F /r
{1,{242,0},0,2,{0xf,0x5f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 466 Maxsd Xmm Xmm: F2 0F 5F /r
{1,{242,0},0,2,{0xf,0x5f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 467 Maxsd Xmm Memory: F2 0F 5F /r
{1,{243,0},0,2,{0xf,0x5f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 468 Maxss Xmm Xmm: F3 0F 5F /r
{1,{243,0},0,2,{0xf,0x5f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 469 Maxss Xmm Memory: F3 0F 5F /r
{0,{0,0},0,3,{0xf,0xae,0xf0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 470 Mfence : 0F AE F0
{1,{102,0},0,2,{0xf,0x5d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 471 Minpd Xmm Xmm: 66 0F 5D /r
{1,{102,0},0,2,{0xf,0x5d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 472 Minpd Xmm Memory: 66 0F 5D /r
{0,{0,0},0,2,{0xf,0x5d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 473 Minps Xmm Xmm: 0F 5D /r
{0,{0,0},0,2,{0xf,0x5d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 474 Minps Xmm Memory: 0F 5D /r
{1,{242,0},0,2,{0xf,0x5d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 475 Minsd Xmm Xmm: F2 0F 5D /r
{1,{242,0},0,2,{0xf,0x5d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 476 Minsd Xmm Memory: F2 0F 5D /r
{1,{243,0},0,2,{0xf,0x5d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 477 Minss Xmm Xmm: F3 0F 5D /r
{1,{243,0},0,2,{0xf,0x5d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 478 Minss Xmm Memory: F3 0F 5D /r
{1,{102,0},0,2,{0xf,0x28,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 479 Movapd Xmm Xmm: 66 0F 28 /r
{1,{102,0},0,2,{0xf,0x28,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 480 Movapd Xmm Memory: 66 0F 28 /r
{1,{102,0},0,2,{0xf,0x29,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 481 Movapd Memory Xmm: 66 0F 29 /r
{0,{0,0},0,2,{0xf,0x28,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 482 Movaps Xmm Xmm: 0F 28 /r
{0,{0,0},0,2,{0xf,0x28,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 483 Movaps Xmm Memory: 0F 28 /r
{0,{0,0},0,2,{0xf,0x29,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 484 Movaps Memory Xmm: 0F 29 /r
{0,{0,0},0,1,{0xb0,0x0,0x0,0x0},1,-1,{3,4,0},{0,1,0},{1,0,0}}, // 485 Movb Gpr8 i8: B0 +rb ib
{0,{0,0},0,1,{0x8a,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,1,0}}, // 486 Movb Gpr8 Gpr8: 8A /r
{0,{0,0},0,1,{0x8a,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,0,0}}, // 487 Movb Gpr8 Memory: 8A /r
{0,{0,0},0,1,{0x88,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 488 Movb Memory Gpr8: 88 /r
{0,{0,0},0,1,{0xc6,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 489 Movb Memory i8: C6 /0 ib
{1,{102,0},0,2,{0xf,0x7e,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 490 Movd Gpr32 Xmm: 66 0F 7E /r
{1,{102,0},0,2,{0xf,0x7e,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 491 Movd Memory Xmm: 66 0F 7E /r
{1,{102,0},0,2,{0xf,0x6e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 492 Movd Xmm Gpr32: 66 0F 6E /r
{1,{102,0},0,2,{0xf,0x6e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 493 Movd Xmm Memory: 66 0F 6E /r
{1,{102,0},0,2,{0xf,0x6f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 494 Movdqa Xmm Xmm: 66 0F 6F /r
{1,{102,0},0,2,{0xf,0x6f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 495 Movdqa Xmm Memory: 66 0F 6F /r
{1,{102,0},0,2,{0xf,0x7f,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 496 Movdqa Memory Xmm: 66 0F 7F /r
{1,{243,0},0,2,{0xf,0x6f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 497 Movdqu Xmm Xmm: F3 0F 6F /r
{1,{243,0},0,2,{0xf,0x6f,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 498 Movdqu Xmm Memory: F3 0F 6F /r
{1,{243,0},0,2,{0xf,0x7f,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 499 Movdqu Memory Xmm: F3 0F 7F /r
{0,{0,0},0,2,{0xf,0x12,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 500 Movhlps Xmm Xmm: 0F 12 /r
{1,{102,0},0,2,{0xf,0x17,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 501 Movhpd Memory Xmm: 66 0F 17 /r
{1,{102,0},0,2,{0xf,0x16,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 502 Movhpd Xmm Memory: 66 0F 16 /r
{0,{0,0},0,2,{0xf,0x17,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 503 Movhps Memory Xmm: 0F 17 /r
{0,{0,0},0,2,{0xf,0x16,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 504 Movhps Xmm Memory: 0F 16 /r
{0,{0,0},0,1,{0xb8,0x0,0x0,0x0},1,-1,{3,4,0},{0,4,0},{0,0,0}}, // 505 Movl Gpr32 i32: B8 +rd id
{0,{0,0},0,1,{0x8b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 506 Movl Gpr32 Gpr32: 8B /r
{0,{0,0},0,1,{0x8b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 507 Movl Gpr32 Memory: 8B /r
{0,{0,0},0,1,{0x89,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 508 Movl Memory Gpr32: 89 /r
{0,{0,0},0,1,{0xc7,0x0,0x0,0x0},0,0,{2,4,0},{0,4,0},{0,0,0}}, // 509 Movl Memory i32: C7 /0 id
{0,{0,0},0,2,{0xf,0x16,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 510 Movlhps Xmm Xmm: 0F 16 /r
{1,{102,0},0,2,{0xf,0x13,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 511 Movlpd Memory Xmm: 66 0F 13 /r
{1,{102,0},0,2,{0xf,0x12,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 512 Movlpd Xmm Memory: 66 0F 12 /r
{0,{0,0},0,2,{0xf,0x13,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 513 Movlps Memory Xmm: 0F 13 /r
{0,{0,0},0,2,{0xf,0x12,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 514 Movlps Xmm Memory: 0F 12 /r
{1,{102,0},0,2,{0xf,0x50,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 515 Movmskpd Gpr64 Xmm: 66 0F 50 /r
{0,{0,0},0,2,{0xf,0x50,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 516 Movmskps Gpr64 Xmm: 0F 50 /r
{1,{102,0},0,2,{0xf,0xe7,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 517 Movntdq Memory Xmm: 66 0F E7 /r
{1,{102,0},0,3,{0xf,0x38,0x2a,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 518 Movntdqa Xmm Memory: 66 0F 38 2A /r
{0,{0,0},0,2,{0xf,0xc3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 519 Movnti Memory Gpr32: 0F C3 /r
{0,{0,0},1,2,{0xf,0xc3,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 520 Movnti Memory Gpr64: REX.W+ 0F C3 /r
{1,{102,0},0,2,{0xf,0x2b,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 521 Movntpd Memory Xmm: 66 0F 2B /r
{0,{0,0},0,2,{0xf,0x2b,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 522 Movntps Memory Xmm: 0F 2B /r
{0,{0,0},1,1,{0xb8,0x0,0x0,0x0},1,-1,{3,4,0},{0,8,0},{0,0,0}}, // 523 Movq Gpr64 i64: REX.W+ B8 +ro io
{0,{0,0},1,1,{0x8b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 524 Movq Gpr64 Gpr64: REX.W+ 8B /r
{0,{0,0},1,1,{0x8b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 525 Movq Gpr64 Memory: REX.W+ 8B /r
{0,{0,0},1,1,{0x89,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 526 Movq Memory Gpr64: REX.W+ 89 /r
{0,{0,0},1,1,{0xc7,0x0,0x0,0x0},0,0,{2,4,0},{0,4,0},{0,0,0}}, // 527 Movq Gpr64 i32: REX.W+ C7 /0 id
{0,{0,0},1,1,{0xc7,0x0,0x0,0x0},0,0,{2,4,0},{0,4,0},{0,0,0}}, // 528 Movq Memory i32: REX.W+ C7 /0 id
{1,{102,0},1,2,{0xf,0x7e,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 529 Movq Gpr64 Xmm: 66 REX.W+ 0F 7E /r
{1,{102,0},1,2,{0xf,0x7e,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 530 Movq Memory Xmm: 66 REX.W+ 0F 7E /r
{1,{102,0},1,2,{0xf,0x6e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 531 Movq Xmm Gpr64: 66 REX.W+ 0F 6E /r
{1,{102,0},1,2,{0xf,0x6e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 532 Movq Xmm Memory: 66 REX.W+ 0F 6E /r
{1,{243,0},0,2,{0xf,0x7e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 533 Movq Xmm Xmm: F3 0F 7E /r
{0,{0,0},0,2,{0xf,0xbe,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,1,0}}, // 534 Movsbl Gpr32 Gpr8: 0F BE /r
{0,{0,0},0,2,{0xf,0xbe,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 535 Movsbl Gpr32 Memory: 0F BE /r
{0,{0,0},1,2,{0xf,0xbe,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,1,0}}, // 536 Movsbq Gpr64 Gpr8: REX.W+ 0F BE /r
{0,{0,0},1,2,{0xf,0xbe,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 537 Movsbq Gpr64 Memory: REX.W+ 0F BE /r
{1,{102,0},0,2,{0xf,0xbe,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,1,0}}, // 538 Movsbw Gpr16 Gpr8: 66 0F BE /r
{1,{102,0},0,2,{0xf,0xbe,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 539 Movsbw Gpr16 Memory: 66 0F BE /r
{1,{242,0},0,2,{0xf,0x10,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 540 Movsd Xmm Xmm: F2 0F 10 /r
{1,{242,0},0,2,{0xf,0x10,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 541 Movsd Xmm Memory: F2 0F 10 /r
{1,{242,0},0,2,{0xf,0x11,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 542 Movsd Memory Xmm: F2 0F 11 /r
{0,{0,0},0,1,{0xa5,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 543 Movsl : A5
{0,{0,0},1,1,{0x63,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 544 Movslq Gpr64 Gpr32: REX.W+ 63 /r
{0,{0,0},1,1,{0x63,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 545 Movslq Gpr64 Memory: REX.W+ 63 /r
{1,{243,0},0,2,{0xf,0x10,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 546 Movss Xmm Xmm: F3 0F 10 /r
{1,{243,0},0,2,{0xf,0x10,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 547 Movss Xmm Memory: F3 0F 10 /r
{1,{243,0},0,2,{0xf,0x11,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 548 Movss Memory Xmm: F3 0F 11 /r
{0,{0,0},0,2,{0xf,0xbf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 549 Movswl Gpr32 Gpr16: 0F BF /r
{0,{0,0},0,2,{0xf,0xbf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 550 Movswl Gpr32 Memory: 0F BF /r
{0,{0,0},1,2,{0xf,0xbf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 551 Movswq Gpr64 Gpr16: REX.W+ 0F BF /r
{0,{0,0},1,2,{0xf,0xbf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 552 Movswq Gpr64 Memory: REX.W+ 0F BF /r
{1,{102,0},0,2,{0xf,0x10,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 553 Movupd Xmm Xmm: 66 0F 10 /r
{1,{102,0},0,2,{0xf,0x10,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 554 Movupd Xmm Memory: 66 0F 10 /r
{1,{102,0},0,2,{0xf,0x11,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 555 Movupd Memory Xmm: 66 0F 11 /r
{0,{0,0},0,2,{0xf,0x10,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 556 Movups Xmm Xmm: 0F 10 /r
{0,{0,0},0,2,{0xf,0x10,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 557 Movups Xmm Memory: 0F 10 /r
{0,{0,0},0,2,{0xf,0x11,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 558 Movups Memory Xmm: 0F 11 /r
{1,{102,0},0,1,{0xb8,0x0,0x0,0x0},1,-1,{3,4,0},{0,2,0},{0,0,0}}, // 559 Movw Gpr16 i16: 66 B8 +rw iw
{1,{102,0},0,1,{0x8b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 560 Movw Gpr16 Gpr16: 66 8B /r
{1,{102,0},0,1,{0x8b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 561 Movw Gpr16 Memory: 66 8B /r
{1,{102,0},0,1,{0x89,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 562 Movw Memory Gpr16: 66 89 /r
{1,{102,0},0,1,{0xc7,0x0,0x0,0x0},0,0,{2,4,0},{0,2,0},{0,0,0}}, // 563 Movw Memory i16: 66 C7 /0 iw
{0,{0,0},0,2,{0xf,0xb6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,1,0}}, // 564 Movzbl Gpr32 Gpr8: 0F B6 /r
{0,{0,0},0,2,{0xf,0xb6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 565 Movzbl Gpr32 Memory: 0F B6 /r
{0,{0,0},1,2,{0xf,0xb6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,1,0}}, // 566 Movzbq Gpr64 Gpr8: REX.W+ 0F B6 /r
{0,{0,0},1,2,{0xf,0xb6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 567 Movzbq Gpr64 Memory: REX.W+ 0F B6 /r
{1,{102,0},0,2,{0xf,0xb6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,1,0}}, // 568 Movzbw Gpr16 Gpr8: 66 0F B6 /r
{1,{102,0},0,2,{0xf,0xb6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 569 Movzbw Gpr16 Memory: 66 0F B6 /r
{0,{0,0},0,2,{0xf,0xb7,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 570 Movzwl Gpr32 Gpr16: 0F B7 /r
{0,{0,0},0,2,{0xf,0xb7,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 571 Movzwl Gpr32 Memory: 0F B7 /r
{0,{0,0},1,2,{0xf,0xb7,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 572 Movzwq Gpr64 Gpr16: REX.W+ 0F B7 /r
{0,{0,0},1,2,{0xf,0xb7,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 573 Movzwq Gpr64 Memory: REX.W+ 0F B7 /r
{1,{102,0},0,3,{0xf,0x3a,0x42,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 574 Mpsadbw Xmm Xmm i8: 66 0F 3A 42 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x42,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 575 Mpsadbw Xmm Memory i8: 66 0F 3A 42 /r ib
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{1,0,0}}, // 576 Mulb Gpr8: F6 /4
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 577 Mulb Memory: F6 /4
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 578 Mull Gpr32: F7 /4
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 579 Mull Memory: F7 /4
{1,{102,0},0,2,{0xf,0x59,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 580 Mulpd Xmm Xmm: 66 0F 59 /r
{1,{102,0},0,2,{0xf,0x59,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 581 Mulpd Xmm Memory: 66 0F 59 /r
{0,{0,0},0,2,{0xf,0x59,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 582 Mulps Xmm Xmm: 0F 59 /r
{0,{0,0},0,2,{0xf,0x59,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 583 Mulps Xmm Memory: 0F 59 /r
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 584 Mulq Gpr64: REX.W+ F7 /4
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 585 Mulq Memory: REX.W+ F7 /4
{1,{242,0},0,2,{0xf,0x59,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 586 Mulsd Xmm Xmm: F2 0F 59 /r
{1,{242,0},0,2,{0xf,0x59,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 587 Mulsd Xmm Memory: F2 0F 59 /r
{1,{243,0},0,2,{0xf,0x59,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 588 Mulss Xmm Xmm: F3 0F 59 /r
{1,{243,0},0,2,{0xf,0x59,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 589 Mulss Xmm Memory: F3 0F 59 /r
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 590 Mulw Gpr16: 66 F7 /4
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 591 Mulw Memory: 66 F7 /4
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{1,0,0}}, // 592 Negb Gpr8: F6 /3
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 593 Negb Memory: F6 /3
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 594 Negl Gpr32: F7 /3
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 595 Negl Memory: F7 /3
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 596 Negq Gpr64: REX.W+ F7 /3
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 597 Negq Memory: REX.W+ F7 /3
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 598 Negw Gpr16: 66 F7 /3
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 599 Negw Memory: 66 F7 /3
{0,{0,0},0,1,{0x90,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 600 Nop : 90
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{1,0,0}}, // 601 Notb Gpr8: F6 /2
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 602 Notb Memory: F6 /2
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 603 Notl Gpr32: F7 /2
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 604 Notl Memory: F7 /2
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 605 Notq Gpr64: REX.W+ F7 /2
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 606 Notq Memory: REX.W+ F7 /2
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 607 Notw Gpr16: 66 F7 /2
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 608 Notw Memory: 66 F7 /2
{0,{0,0},0,1,{0xa,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,1,0}}, // 609 Orb Gpr8 Gpr8: 0A /r
{0,{0,0},0,1,{0xa,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,0,0}}, // 610 Orb Gpr8 Memory: 0A /r
{0,{0,0},0,1,{0x8,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 611 Orb Memory Gpr8: 08 /r
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{1,0,0}}, // 612 Orb Gpr8 i8: 80 /1 ib
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 613 Orb Memory i8: 80 /1 ib
{0,{0,0},0,1,{0xc,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 614 Orb _Al i8: 0C ib
{0,{0,0},0,1,{0xb,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 615 Orl Gpr32 Gpr32: 0B /r
{0,{0,0},0,1,{0xb,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 616 Orl Gpr32 Memory: 0B /r
{0,{0,0},0,1,{0x9,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 617 Orl Memory Gpr32: 09 /r
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 618 Orl Gpr32 i8: 83 /1 ib
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 619 Orl Memory i8: 83 /1 ib
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,1,{2,4,0},{0,4,0},{0,0,0}}, // 620 Orl Gpr32 i32: 81 /1 id
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,1,{2,4,0},{0,4,0},{0,0,0}}, // 621 Orl Memory i32: 81 /1 id
{0,{0,0},0,1,{0xd,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 622 Orl _Eax i32: 0D id
{1,{102,0},0,2,{0xf,0x56,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 623 Orpd Xmm Xmm: 66 0F 56 /r
{1,{102,0},0,2,{0xf,0x56,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 624 Orpd Xmm Memory: 66 0F 56 /r
{0,{0,0},0,2,{0xf,0x56,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 625 Orps Xmm Xmm: 0F 56 /r
{0,{0,0},0,2,{0xf,0x56,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 626 Orps Xmm Memory: 0F 56 /r
{0,{0,0},1,1,{0xb,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 627 Orq Gpr64 Gpr64: REX.W+ 0B /r
{0,{0,0},1,1,{0xb,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 628 Orq Gpr64 Memory: REX.W+ 0B /r
{0,{0,0},1,1,{0x9,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 629 Orq Memory Gpr64: REX.W+ 09 /r
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 630 Orq Gpr64 i8: REX.W+ 83 /1 ib
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 631 Orq Memory i8: REX.W+ 83 /1 ib
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,1,{2,4,0},{0,4,0},{0,0,0}}, // 632 Orq Gpr64 i32: REX.W+ 81 /1 id
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,1,{2,4,0},{0,4,0},{0,0,0}}, // 633 Orq Memory i32: REX.W+ 81 /1 id
{0,{0,0},1,1,{0xd,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 634 Orq _Rax i32: REX.W+ 0D id
{1,{102,0},0,1,{0xb,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 635 Orw Gpr16 Gpr16: 66 0B /r
{1,{102,0},0,1,{0xb,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 636 Orw Gpr16 Memory: 66 0B /r
{1,{102,0},0,1,{0x9,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 637 Orw Memory Gpr16: 66 09 /r
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 638 Orw Gpr16 i8: 66 83 /1 ib
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 639 Orw Memory i8: 66 83 /1 ib
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,1,{2,4,0},{0,2,0},{0,0,0}}, // 640 Orw Gpr16 i16: 66 81 /1 iw
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,1,{2,4,0},{0,2,0},{0,0,0}}, // 641 Orw Memory i16: 66 81 /1 iw
{1,{102,0},0,1,{0xd,0x0,0x0,0x0},0,-1,{0,4,0},{0,2,0},{0,0,0}}, // 642 Orw _Ax i16: 66 0D iw
{0,{0,0},0,1,{0xe6,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 643 Outb i8 _Al: E6 ib
{0,{0,0},0,1,{0xee,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 644 Outb _Dx _Al: EE
{0,{0,0},0,1,{0xe7,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 645 Outl i8 _Eax: E7 ib
{0,{0,0},0,1,{0xef,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 646 Outl _Dx _Eax: EF
{1,{102,0},0,1,{0xe7,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 647 Outw i8 _Ax: 66 E7 ib
{1,{102,0},0,1,{0xef,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 648 Outw _Dx _Ax: 66 EF
{1,{102,0},0,2,{0xf,0x6b,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 649 Packssdw Xmm Xmm: 66 0F 6B /r
{1,{102,0},0,2,{0xf,0x6b,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 650 Packssdw Xmm Memory: 66 0F 6B /r
{1,{102,0},0,2,{0xf,0x63,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 651 Packsswb Xmm Xmm: 66 0F 63 /r
{1,{102,0},0,2,{0xf,0x63,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 652 Packsswb Xmm Memory: 66 0F 63 /r
{1,{102,0},0,3,{0xf,0x38,0x2b,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 653 Packusdw Xmm Xmm: 66 0F 38 2B /r
{1,{102,0},0,3,{0xf,0x38,0x2b,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 654 Packusdw Xmm Memory: 66 0F 38 2B /r
{1,{102,0},0,2,{0xf,0x67,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 655 Packuswb Xmm Xmm: 66 0F 67 /r
{1,{102,0},0,2,{0xf,0x67,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 656 Packuswb Xmm Memory: 66 0F 67 /r
{1,{102,0},0,2,{0xf,0xfc,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 657 Paddb Xmm Xmm: 66 0F FC /r
{1,{102,0},0,2,{0xf,0xfc,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 658 Paddb Xmm Memory: 66 0F FC /r
{1,{102,0},0,2,{0xf,0xfe,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 659 Paddd Xmm Xmm: 66 0F FE /r
{1,{102,0},0,2,{0xf,0xfe,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 660 Paddd Xmm Memory: 66 0F FE /r
{1,{102,0},0,2,{0xf,0xd4,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 661 Paddq Xmm Xmm: 66 0F D4 /r
{1,{102,0},0,2,{0xf,0xd4,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 662 Paddq Xmm Memory: 66 0F D4 /r
{1,{102,0},0,2,{0xf,0xec,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 663 Paddsb Xmm Xmm: 66 0F EC /r
{1,{102,0},0,2,{0xf,0xec,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 664 Paddsb Xmm Memory: 66 0F EC /r
{1,{102,0},0,2,{0xf,0xed,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 665 Paddsw Xmm Xmm: 66 0F ED /r
{1,{102,0},0,2,{0xf,0xed,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 666 Paddsw Xmm Memory: 66 0F ED /r
{1,{102,0},0,2,{0xf,0xdc,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 667 Paddusb Xmm Xmm: 66 0F DC /r
{1,{102,0},0,2,{0xf,0xdc,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 668 Paddusb Xmm Memory: 66 0F DC /r
{1,{102,0},0,2,{0xf,0xdd,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 669 Paddusw Xmm Xmm: 66 0F DD /r
{1,{102,0},0,2,{0xf,0xdd,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 670 Paddusw Xmm Memory: 66 0F DD /r
{1,{102,0},0,2,{0xf,0xfd,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 671 Paddw Xmm Xmm: 66 0F FD /r
{1,{102,0},0,2,{0xf,0xfd,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 672 Paddw Xmm Memory: 66 0F FD /r
{1,{102,0},0,2,{0xf,0xdb,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 673 Pand Xmm Xmm: 66 0F DB /r
{1,{102,0},0,2,{0xf,0xdb,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 674 Pand Xmm Memory: 66 0F DB /r
{1,{102,0},0,2,{0xf,0xdf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 675 Pandn Xmm Xmm: 66 0F DF /r
{1,{102,0},0,2,{0xf,0xdf,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 676 Pandn Xmm Memory: 66 0F DF /r
{1,{243,0},0,1,{0x90,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 677 Pause : F3 90
{1,{102,0},0,2,{0xf,0xe0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 678 Pavgb Xmm Xmm: 66 0F E0 /r
{1,{102,0},0,2,{0xf,0xe0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 679 Pavgb Xmm Memory: 66 0F E0 /r
{1,{102,0},0,2,{0xf,0xe3,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 680 Pavgw Xmm Xmm: 66 0F E3 /r
{1,{102,0},0,2,{0xf,0xe3,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 681 Pavgw Xmm Memory: 66 0F E3 /r
{1,{102,0},0,3,{0xf,0x38,0x10,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 682 Pblendvb Xmm Xmm _Xmm0: 66 0F 38 10 /r
{1,{102,0},0,3,{0xf,0x38,0x10,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 683 Pblendvb Xmm Memory _Xmm0: 66 0F 38 10 /r
{1,{102,0},0,3,{0xf,0x3a,0xe,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 684 Pblendw Xmm Xmm i8: 66 0F 3A 0E /r ib
{1,{102,0},0,3,{0xf,0x3a,0xe,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 685 Pblendw Xmm Memory i8: 66 0F 3A 0E /r ib
{1,{102,0},0,2,{0xf,0x74,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 686 Pcmpeqb Xmm Xmm: 66 0F 74 /r
{1,{102,0},0,2,{0xf,0x74,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 687 Pcmpeqb Xmm Memory: 66 0F 74 /r
{1,{102,0},0,2,{0xf,0x76,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 688 Pcmpeqd Xmm Xmm: 66 0F 76 /r
{1,{102,0},0,2,{0xf,0x76,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 689 Pcmpeqd Xmm Memory: 66 0F 76 /r
{1,{102,0},0,3,{0xf,0x38,0x29,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 690 Pcmpeqq Xmm Xmm: 66 0F 38 29 /r
{1,{102,0},0,3,{0xf,0x38,0x29,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 691 Pcmpeqq Xmm Memory: 66 0F 38 29 /r
{1,{102,0},0,2,{0xf,0x75,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 692 Pcmpeqw Xmm Xmm: 66 0F 75 /r
{1,{102,0},0,2,{0xf,0x75,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 693 Pcmpeqw Xmm Memory: 66 0F 75 /r
{1,{102,0},0,3,{0xf,0x3a,0x61,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 694 Pcmpestri Xmm Xmm i8: 66 0F 3A 61 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x61,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 695 Pcmpestri Xmm Memory i8: 66 0F 3A 61 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x60,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 696 Pcmpestrm Xmm Xmm i8: 66 0F 3A 60 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x60,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 697 Pcmpestrm Xmm Memory i8: 66 0F 3A 60 /r ib
{1,{102,0},0,2,{0xf,0x64,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 698 Pcmpgtb Xmm Xmm: 66 0F 64 /r
{1,{102,0},0,2,{0xf,0x64,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 699 Pcmpgtb Xmm Memory: 66 0F 64 /r
{1,{102,0},0,2,{0xf,0x66,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 700 Pcmpgtd Xmm Xmm: 66 0F 66 /r
{1,{102,0},0,2,{0xf,0x66,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 701 Pcmpgtd Xmm Memory: 66 0F 66 /r
{1,{102,0},0,3,{0xf,0x38,0x37,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 702 Pcmpgtq Xmm Xmm: 66 0F 38 37 /r
{1,{102,0},0,3,{0xf,0x38,0x37,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 703 Pcmpgtq Xmm Memory: 66 0F 38 37 /r
{1,{102,0},0,2,{0xf,0x65,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 704 Pcmpgtw Xmm Xmm: 66 0F 65 /r
{1,{102,0},0,2,{0xf,0x65,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 705 Pcmpgtw Xmm Memory: 66 0F 65 /r
{1,{102,0},0,3,{0xf,0x3a,0x63,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 706 Pcmpistri Xmm Xmm i8: 66 0F 3A 63 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x63,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 707 Pcmpistri Xmm Memory i8: 66 0F 3A 63 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x62,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 708 Pcmpistrm Xmm Xmm i8: 66 0F 3A 62 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x62,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 709 Pcmpistrm Xmm Memory i8: 66 0F 3A 62 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x14,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 710 Pextrb Gpr64 Xmm i8: 66 0F 3A 14 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x14,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 711 Pextrb Memory Xmm i8: 66 0F 3A 14 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x16,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 712 Pextrd Gpr32 Xmm i8: 66 0F 3A 16 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x16,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 713 Pextrd Memory Xmm i8: 66 0F 3A 16 /r ib
{1,{102,0},1,3,{0xf,0x3a,0x16,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 714 Pextrq Gpr64 Xmm i8: 66 REX.W+ 0F 3A 16 /r ib
{1,{102,0},1,3,{0xf,0x3a,0x16,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 715 Pextrq Memory Xmm i8: 66 REX.W+ 0F 3A 16 /r ib
{1,{102,0},0,2,{0xf,0xc5,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 716 Pextrw Gpr64 Xmm i8: 66 0F C5 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x15,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 717 Pextrw Memory Xmm i8: 66 0F 3A 15 /r ib
{1,{102,0},0,3,{0xf,0x38,0x41,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 718 Phminposuw Xmm Xmm: 66 0F 38 41 /r
{1,{102,0},0,3,{0xf,0x38,0x41,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 719 Phminposuw Xmm Memory: 66 0F 38 41 /r
{1,{102,0},0,3,{0xf,0x3a,0x20,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 720 Pinsrb Xmm Gpr32 i8: 66 0F 3A 20 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x20,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 721 Pinsrb Xmm Memory i8: 66 0F 3A 20 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x22,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 722 Pinsrd Xmm Gpr32 i8: 66 0F 3A 22 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x22,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 723 Pinsrd Xmm Memory i8: 66 0F 3A 22 /r ib
{1,{102,0},0,2,{0xf,0xc4,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 724 Pinsrw Xmm Gpr32 i8: 66 0F C4 /r ib
{1,{102,0},0,2,{0xf,0xc4,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 725 Pinsrw Xmm Memory i8: 66 0F C4 /r ib
{1,{102,0},0,2,{0xf,0xf5,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 726 Pmaddwd Xmm Xmm: 66 0F F5 /r
{1,{102,0},0,2,{0xf,0xf5,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 727 Pmaddwd Xmm Memory: 66 0F F5 /r
{1,{102,0},0,3,{0xf,0x38,0x3c,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 728 Pmaxsb Xmm Xmm: 66 0F 38 3C /r
{1,{102,0},0,3,{0xf,0x38,0x3c,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 729 Pmaxsb Xmm Memory: 66 0F 38 3C /r
{1,{102,0},0,3,{0xf,0x38,0x3d,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 730 Pmaxsd Xmm Xmm: 66 0F 38 3D /r
{1,{102,0},0,3,{0xf,0x38,0x3d,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 731 Pmaxsd Xmm Memory: 66 0F 38 3D /r
{1,{102,0},0,2,{0xf,0xee,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 732 Pmaxsw Xmm Xmm: 66 0F EE /r
{1,{102,0},0,2,{0xf,0xee,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 733 Pmaxsw Xmm Memory: 66 0F EE /r
{1,{102,0},0,2,{0xf,0xde,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 734 Pmaxub Xmm Xmm: 66 0F DE /r
{1,{102,0},0,2,{0xf,0xde,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 735 Pmaxub Xmm Memory: 66 0F DE /r
{1,{102,0},0,3,{0xf,0x38,0x3f,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 736 Pmaxud Xmm Xmm: 66 0F 38 3F /r
{1,{102,0},0,3,{0xf,0x38,0x3f,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 737 Pmaxud Xmm Memory: 66 0F 38 3F /r
{1,{102,0},0,3,{0xf,0x38,0x3e,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 738 Pmaxuw Xmm Xmm: 66 0F 38 3E /r
{1,{102,0},0,3,{0xf,0x38,0x3e,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 739 Pmaxuw Xmm Memory: 66 0F 38 3E /r
{1,{102,0},0,3,{0xf,0x38,0x38,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 740 Pminsb Xmm Xmm: 66 0F 38 38 /r
{1,{102,0},0,3,{0xf,0x38,0x38,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 741 Pminsb Xmm Memory: 66 0F 38 38 /r
{1,{102,0},0,3,{0xf,0x38,0x39,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 742 Pminsd Xmm Xmm: 66 0F 38 39 /r
{1,{102,0},0,3,{0xf,0x38,0x39,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 743 Pminsd Xmm Memory: 66 0F 38 39 /r
{1,{102,0},0,2,{0xf,0xea,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 744 Pminsw Xmm Xmm: 66 0F EA /r
{1,{102,0},0,2,{0xf,0xea,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 745 Pminsw Xmm Memory: 66 0F EA /r
{1,{102,0},0,2,{0xf,0xda,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 746 Pminub Xmm Xmm: 66 0F DA /r
{1,{102,0},0,2,{0xf,0xda,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 747 Pminub Xmm Memory: 66 0F DA /r
{1,{102,0},0,3,{0xf,0x38,0x3b,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 748 Pminud Xmm Xmm: 66 0F 38 3B /r
{1,{102,0},0,3,{0xf,0x38,0x3b,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 749 Pminud Xmm Memory: 66 0F 38 3B /r
{1,{102,0},0,3,{0xf,0x38,0x3a,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 750 Pminuw Xmm Xmm: 66 0F 38 3A /r
{1,{102,0},0,3,{0xf,0x38,0x3a,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 751 Pminuw Xmm Memory: 66 0F 38 3A /r
{1,{102,0},0,2,{0xf,0xd7,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 752 Pmovmskb Gpr64 Xmm: 66 0F D7 /r
{1,{102,0},0,3,{0xf,0x38,0x21,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 753 Pmovsxbd Xmm Xmm: 66 0F 38 21 /r
{1,{102,0},0,3,{0xf,0x38,0x21,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 754 Pmovsxbd Xmm Memory: 66 0F 38 21 /r
{1,{102,0},0,3,{0xf,0x38,0x22,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 755 Pmovsxbq Xmm Xmm: 66 0F 38 22 /r
{1,{102,0},0,3,{0xf,0x38,0x22,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 756 Pmovsxbq Xmm Memory: 66 0F 38 22 /r
{1,{102,0},0,3,{0xf,0x38,0x20,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 757 Pmovsxbw Xmm Xmm: 66 0F 38 20 /r
{1,{102,0},0,3,{0xf,0x38,0x20,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 758 Pmovsxbw Xmm Memory: 66 0F 38 20 /r
{1,{102,0},0,3,{0xf,0x38,0x25,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 759 Pmovsxdq Xmm Xmm: 66 0F 38 25 /r
{1,{102,0},0,3,{0xf,0x38,0x25,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 760 Pmovsxdq Xmm Memory: 66 0F 38 25 /r
{1,{102,0},0,3,{0xf,0x38,0x23,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 761 Pmovsxwd Xmm Xmm: 66 0F 38 23 /r
{1,{102,0},0,3,{0xf,0x38,0x23,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 762 Pmovsxwd Xmm Memory: 66 0F 38 23 /r
{1,{102,0},0,3,{0xf,0x38,0x24,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 763 Pmovsxwq Xmm Xmm: 66 0F 38 24 /r
{1,{102,0},0,3,{0xf,0x38,0x24,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 764 Pmovsxwq Xmm Memory: 66 0F 38 24 /r
{1,{102,0},0,3,{0xf,0x38,0x31,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 765 Pmovzxbd Xmm Xmm: 66 0F 38 31 /r
{1,{102,0},0,3,{0xf,0x38,0x31,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 766 Pmovzxbd Xmm Memory: 66 0F 38 31 /r
{1,{102,0},0,3,{0xf,0x38,0x32,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 767 Pmovzxbq Xmm Xmm: 66 0F 38 32 /r
{1,{102,0},0,3,{0xf,0x38,0x32,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 768 Pmovzxbq Xmm Memory: 66 0F 38 32 /r
{1,{102,0},0,3,{0xf,0x38,0x30,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 769 Pmovzxbw Xmm Xmm: 66 0F 38 30 /r
{1,{102,0},0,3,{0xf,0x38,0x30,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 770 Pmovzxbw Xmm Memory: 66 0F 38 30 /r
{1,{102,0},0,3,{0xf,0x38,0x35,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 771 Pmovzxdq Xmm Xmm: 66 0F 38 35 /r
{1,{102,0},0,3,{0xf,0x38,0x35,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 772 Pmovzxdq Xmm Memory: 66 0F 38 35 /r
{1,{102,0},0,3,{0xf,0x38,0x33,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 773 Pmovzxwd Xmm Xmm: 66 0F 38 33 /r
{1,{102,0},0,3,{0xf,0x38,0x33,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 774 Pmovzxwd Xmm Memory: 66 0F 38 33 /r
{1,{102,0},0,3,{0xf,0x38,0x34,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 775 Pmovzxwq Xmm Xmm: 66 0F 38 34 /r
{1,{102,0},0,3,{0xf,0x38,0x34,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 776 Pmovzxwq Xmm Memory: 66 0F 38 34 /r
{1,{102,0},0,3,{0xf,0x38,0x28,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 777 Pmuldq Xmm Xmm: 66 0F 38 28 /r
{1,{102,0},0,3,{0xf,0x38,0x28,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 778 Pmuldq Xmm Memory: 66 0F 38 28 /r
{1,{102,0},0,2,{0xf,0xe4,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 779 Pmulhuw Xmm Xmm: 66 0F E4 /r
{1,{102,0},0,2,{0xf,0xe4,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 780 Pmulhuw Xmm Memory: 66 0F E4 /r
{1,{102,0},0,2,{0xf,0xe5,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 781 Pmulhw Xmm Xmm: 66 0F E5 /r
{1,{102,0},0,2,{0xf,0xe5,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 782 Pmulhw Xmm Memory: 66 0F E5 /r
{1,{102,0},0,3,{0xf,0x38,0x40,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 783 Pmulld Xmm Xmm: 66 0F 38 40 /r
{1,{102,0},0,3,{0xf,0x38,0x40,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 784 Pmulld Xmm Memory: 66 0F 38 40 /r
{1,{102,0},0,2,{0xf,0xd5,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 785 Pmullw Xmm Xmm: 66 0F D5 /r
{1,{102,0},0,2,{0xf,0xd5,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 786 Pmullw Xmm Memory: 66 0F D5 /r
{1,{102,0},0,2,{0xf,0xf4,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 787 Pmuludq Xmm Xmm: 66 0F F4 /r
{1,{102,0},0,2,{0xf,0xf4,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 788 Pmuludq Xmm Memory: 66 0F F4 /r
{1,{243,0},0,2,{0xf,0xb8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 789 Popcntl Gpr32 Gpr32: F3 0F B8 /r
{1,{243,0},0,2,{0xf,0xb8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 790 Popcntl Gpr32 Memory: F3 0F B8 /r
{1,{243,0},1,2,{0xf,0xb8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 791 Popcntq Gpr64 Gpr64: F3 REX.W+ 0F B8 /r
{1,{243,0},1,2,{0xf,0xb8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 792 Popcntq Gpr64 Memory: F3 REX.W+ 0F B8 /r
{2,{243,102},0,2,{0xf,0xb8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 793 Popcntw Gpr16 Gpr16: F3 66 0F B8 /r
{2,{243,102},0,2,{0xf,0xb8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 794 Popcntw Gpr16 Memory: F3 66 0F B8 /r
{0,{0,0},0,1,{0x9d,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 795 Popfq : 9D
{1,{102,0},0,1,{0x9d,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 796 Popfw : 66 9D
{0,{0,0},0,1,{0x58,0x0,0x0,0x0},1,-1,{3,0,0},{0,0,0},{0,0,0}}, // 797 Popq Gpr64: 58 +ro
{0,{0,0},0,1,{0x8f,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 798 Popq Memory: 8F /0
{1,{102,0},0,1,{0x58,0x0,0x0,0x0},1,-1,{3,0,0},{0,0,0},{0,0,0}}, // 799 Popw Gpr16: 66 58 +rw
{1,{102,0},0,1,{0x8f,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 800 Popw Memory: 66 8F /0
{1,{102,0},0,2,{0xf,0xeb,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 801 Por Xmm Xmm: 66 0F EB /r
{1,{102,0},0,2,{0xf,0xeb,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 802 Por Xmm Memory: 66 0F EB /r
{1,{102,0},0,2,{0xf,0xf6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 803 Psadbw Xmm Xmm: 66 0F F6 /r
{1,{102,0},0,2,{0xf,0xf6,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 804 Psadbw Xmm Memory: 66 0F F6 /r
{1,{102,0},0,2,{0xf,0x70,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 805 Pshufd Xmm Xmm i8: 66 0F 70 /r ib
{1,{102,0},0,2,{0xf,0x70,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 806 Pshufd Xmm Memory i8: 66 0F 70 /r ib
{1,{243,0},0,2,{0xf,0x70,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 807 Pshufhw Xmm Xmm i8: F3 0F 70 /r ib
{1,{243,0},0,2,{0xf,0x70,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 808 Pshufhw Xmm Memory i8: F3 0F 70 /r ib
{1,{242,0},0,2,{0xf,0x70,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 809 Pshuflw Xmm Xmm i8: F2 0F 70 /r ib
{1,{242,0},0,2,{0xf,0x70,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 810 Pshuflw Xmm Memory i8: F2 0F 70 /r ib
{1,{102,0},0,2,{0xf,0x72,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 811 Pslld Xmm i8: 66 0F 72 /6 ib
{1,{102,0},0,2,{0xf,0xf2,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 812 Pslld Xmm Xmm: 66 0F F2 /r
{1,{102,0},0,2,{0xf,0xf2,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 813 Pslld Xmm Memory: 66 0F F2 /r
{1,{102,0},0,2,{0xf,0x73,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 814 Pslldq Xmm i8: 66 0F 73 /7 ib
{1,{102,0},0,2,{0xf,0x73,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 815 Psllq Xmm i8: 66 0F 73 /6 ib
{1,{102,0},0,2,{0xf,0xf3,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 816 Psllq Xmm Xmm: 66 0F F3 /r
{1,{102,0},0,2,{0xf,0xf3,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 817 Psllq Xmm Memory: 66 0F F3 /r
{1,{102,0},0,2,{0xf,0x71,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 818 Psllw Xmm i8: 66 0F 71 /6 ib
{1,{102,0},0,2,{0xf,0xf1,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 819 Psllw Xmm Xmm: 66 0F F1 /r
{1,{102,0},0,2,{0xf,0xf1,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 820 Psllw Xmm Memory: 66 0F F1 /r
{1,{102,0},0,2,{0xf,0x72,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 821 Psrad Xmm i8: 66 0F 72 /4 ib
{1,{102,0},0,2,{0xf,0xe2,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 822 Psrad Xmm Xmm: 66 0F E2 /r
{1,{102,0},0,2,{0xf,0xe2,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 823 Psrad Xmm Memory: 66 0F E2 /r
{1,{102,0},0,2,{0xf,0x71,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 824 Psraw Xmm i8: 66 0F 71 /4 ib
{1,{102,0},0,2,{0xf,0xe1,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 825 Psraw Xmm Xmm: 66 0F E1 /r
{1,{102,0},0,2,{0xf,0xe1,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 826 Psraw Xmm Memory: 66 0F E1 /r
{1,{102,0},0,2,{0xf,0x72,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 827 Psrld Xmm i8: 66 0F 72 /2 ib
{1,{102,0},0,2,{0xf,0xd2,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 828 Psrld Xmm Xmm: 66 0F D2 /r
{1,{102,0},0,2,{0xf,0xd2,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 829 Psrld Xmm Memory: 66 0F D2 /r
{1,{102,0},0,2,{0xf,0x73,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 830 Psrldq Xmm i8: 66 0F 73 /3 ib
{1,{102,0},0,2,{0xf,0x73,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 831 Psrlq Xmm i8: 66 0F 73 /2 ib
{1,{102,0},0,2,{0xf,0xd3,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 832 Psrlq Xmm Xmm: 66 0F D3 /r
{1,{102,0},0,2,{0xf,0xd3,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 833 Psrlq Xmm Memory: 66 0F D3 /r
{1,{102,0},0,2,{0xf,0x71,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 834 Psrlw Xmm i8: 66 0F 71 /2 ib
{1,{102,0},0,2,{0xf,0xd1,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 835 Psrlw Xmm Xmm: 66 0F D1 /r
{1,{102,0},0,2,{0xf,0xd1,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 836 Psrlw Xmm Memory: 66 0F D1 /r
{1,{102,0},0,2,{0xf,0xf8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 837 Psubb Xmm Xmm: 66 0F F8 /r
{1,{102,0},0,2,{0xf,0xf8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 838 Psubb Xmm Memory: 66 0F F8 /r
{1,{102,0},0,2,{0xf,0xfa,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 839 Psubd Xmm Xmm: 66 0F FA /r
{1,{102,0},0,2,{0xf,0xfa,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 840 Psubd Xmm Memory: 66 0F FA /r
{1,{102,0},0,2,{0xf,0xfb,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 841 Psubq Xmm Xmm: 66 0F FB /r
{1,{102,0},0,2,{0xf,0xfb,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 842 Psubq Xmm Memory: 66 0F FB /r
{1,{102,0},0,2,{0xf,0xe8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 843 Psubsb Xmm Xmm: 66 0F E8 /r
{1,{102,0},0,2,{0xf,0xe8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 844 Psubsb Xmm Memory: 66 0F E8 /r
{1,{102,0},0,2,{0xf,0xe9,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 845 Psubsw Xmm Xmm: 66 0F E9 /r
{1,{102,0},0,2,{0xf,0xe9,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 846 Psubsw Xmm Memory: 66 0F E9 /r
{1,{102,0},0,2,{0xf,0xd8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 847 Psubusb Xmm Xmm: 66 0F D8 /r
{1,{102,0},0,2,{0xf,0xd8,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 848 Psubusb Xmm Memory: 66 0F D8 /r
{1,{102,0},0,2,{0xf,0xd9,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 849 Psubusw Xmm Xmm: 66 0F D9 /r
{1,{102,0},0,2,{0xf,0xd9,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 850 Psubusw Xmm Memory: 66 0F D9 /r
{1,{102,0},0,2,{0xf,0xf9,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 851 Psubw Xmm Xmm: 66 0F F9 /r
{1,{102,0},0,2,{0xf,0xf9,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 852 Psubw Xmm Memory: 66 0F F9 /r
{1,{102,0},0,3,{0xf,0x38,0x17,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 853 Ptest Xmm Xmm: 66 0F 38 17 /r
{1,{102,0},0,3,{0xf,0x38,0x17,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 854 Ptest Xmm Memory: 66 0F 38 17 /r
{1,{102,0},0,2,{0xf,0x68,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 855 Punpckhbw Xmm Xmm: 66 0F 68 /r
{1,{102,0},0,2,{0xf,0x68,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 856 Punpckhbw Xmm Memory: 66 0F 68 /r
{1,{102,0},0,2,{0xf,0x6a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 857 Punpckhdq Xmm Xmm: 66 0F 6A /r
{1,{102,0},0,2,{0xf,0x6a,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 858 Punpckhdq Xmm Memory: 66 0F 6A /r
{1,{102,0},0,2,{0xf,0x6d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 859 Punpckhqdq Xmm Xmm: 66 0F 6D /r
{1,{102,0},0,2,{0xf,0x6d,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 860 Punpckhqdq Xmm Memory: 66 0F 6D /r
{1,{102,0},0,2,{0xf,0x69,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 861 Punpckhwd Xmm Xmm: 66 0F 69 /r
{1,{102,0},0,2,{0xf,0x69,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 862 Punpckhwd Xmm Memory: 66 0F 69 /r
{1,{102,0},0,2,{0xf,0x60,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 863 Punpcklbw Xmm Xmm: 66 0F 60 /r
{1,{102,0},0,2,{0xf,0x60,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 864 Punpcklbw Xmm Memory: 66 0F 60 /r
{1,{102,0},0,2,{0xf,0x62,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 865 Punpckldq Xmm Xmm: 66 0F 62 /r
{1,{102,0},0,2,{0xf,0x62,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 866 Punpckldq Xmm Memory: 66 0F 62 /r
{1,{102,0},0,2,{0xf,0x6c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 867 Punpcklqdq Xmm Xmm: 66 0F 6C /r
{1,{102,0},0,2,{0xf,0x6c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 868 Punpcklqdq Xmm Memory: 66 0F 6C /r
{1,{102,0},0,2,{0xf,0x61,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 869 Punpcklwd Xmm Xmm: 66 0F 61 /r
{1,{102,0},0,2,{0xf,0x61,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 870 Punpcklwd Xmm Memory: 66 0F 61 /r
{0,{0,0},0,1,{0x9c,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 871 Pushfq : 9C
{1,{102,0},0,1,{0x9c,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 872 Pushfw : 66 9C
{0,{0,0},0,1,{0x50,0x0,0x0,0x0},1,-1,{3,0,0},{0,0,0},{0,0,0}}, // 873 Pushq Gpr64: 50 +ro
{0,{0,0},0,1,{0x6a,0x0,0x0,0x0},0,-1,{4,0,0},{1,0,0},{0,0,0}}, // 874 Pushq i8: 6A ib
{1,{102,0},0,1,{0x68,0x0,0x0,0x0},0,-1,{4,0,0},{2,0,0},{0,0,0}}, // 875 Pushq i16: 66 68 iw
{0,{0,0},0,1,{0x68,0x0,0x0,0x0},0,-1,{4,0,0},{4,0,0},{0,0,0}}, // 876 Pushq i32: 68 id
{0,{0,0},0,1,{0xff,0x0,0x0,0x0},0,6,{2,0,0},{0,0,0},{0,0,0}}, // 877 Pushq Memory: FF /6
{1,{102,0},0,1,{0x50,0x0,0x0,0x0},1,-1,{3,0,0},{0,0,0},{0,0,0}}, // 878 Pushw Gpr16: 66 50 +rw
{1,{102,0},0,1,{0xff,0x0,0x0,0x0},0,6,{2,0,0},{0,0,0},{0,0,0}}, // 879 Pushw Memory: 66 FF /6
{1,{102,0},0,2,{0xf,0xef,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 880 Pxor Xmm Xmm: 66 0F EF /r
{1,{102,0},0,2,{0xf,0xef,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 881 Pxor Xmm Memory: 66 0F EF /r
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{1,0,0}}, // 882 Rclb Gpr8 i8: C0 /2 ib
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 883 Rclb Memory i8: C0 /2 ib
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{1,0,0}}, // 884 Rclb Gpr8 _1: D0 /2
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 885 Rclb Memory _1: D0 /2
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{1,0,0}}, // 886 Rclb Gpr8 _Cl: D2 /2
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 887 Rclb Memory _Cl: D2 /2
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 888 Rcll Gpr32 i8: C1 /2 ib
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 889 Rcll Memory i8: C1 /2 ib
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 890 Rcll Gpr32 _1: D1 /2
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 891 Rcll Memory _1: D1 /2
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 892 Rcll Gpr32 _Cl: D3 /2
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 893 Rcll Memory _Cl: D3 /2
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 894 Rclq Gpr64 i8: REX.W+ C1 /2 ib
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 895 Rclq Memory i8: REX.W+ C1 /2 ib
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 896 Rclq Gpr64 _1: REX.W+ D1 /2
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 897 Rclq Memory _1: REX.W+ D1 /2
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 898 Rclq Gpr64 _Cl: REX.W+ D3 /2
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 899 Rclq Memory _Cl: REX.W+ D3 /2
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 900 Rclw Gpr16 i8: 66 C1 /2 ib
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,2,{2,4,0},{0,1,0},{0,0,0}}, // 901 Rclw Memory i8: 66 C1 /2 ib
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 902 Rclw Gpr16 _1: 66 D1 /2
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 903 Rclw Memory _1: 66 D1 /2
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 904 Rclw Gpr16 _Cl: 66 D3 /2
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,2,{2,0,0},{0,0,0},{0,0,0}}, // 905 Rclw Memory _Cl: 66 D3 /2
{0,{0,0},0,2,{0xf,0x53,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 906 Rcpps Xmm Xmm: 0F 53 /r
{0,{0,0},0,2,{0xf,0x53,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 907 Rcpps Xmm Memory: 0F 53 /r
{1,{243,0},0,2,{0xf,0x53,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 908 Rcpss Xmm Xmm: F3 0F 53 /r
{1,{243,0},0,2,{0xf,0x53,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 909 Rcpss Xmm Memory: F3 0F 53 /r
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{1,0,0}}, // 910 Rcrb Gpr8 i8: C0 /3 ib
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 911 Rcrb Memory i8: C0 /3 ib
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{1,0,0}}, // 912 Rcrb Gpr8 _1: D0 /3
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 913 Rcrb Memory _1: D0 /3
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{1,0,0}}, // 914 Rcrb Gpr8 _Cl: D2 /3
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 915 Rcrb Memory _Cl: D2 /3
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 916 Rcrl Gpr32 i8: C1 /3 ib
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 917 Rcrl Memory i8: C1 /3 ib
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 918 Rcrl Gpr32 _1: D1 /3
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 919 Rcrl Memory _1: D1 /3
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 920 Rcrl Gpr32 _Cl: D3 /3
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 921 Rcrl Memory _Cl: D3 /3
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 922 Rcrq Gpr64 i8: REX.W+ C1 /3 ib
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 923 Rcrq Memory i8: REX.W+ C1 /3 ib
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 924 Rcrq Gpr64 _1: REX.W+ D1 /3
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 925 Rcrq Memory _1: REX.W+ D1 /3
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 926 Rcrq Gpr64 _Cl: REX.W+ D3 /3
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 927 Rcrq Memory _Cl: REX.W+ D3 /3
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 928 Rcrw Gpr16 i8: 66 C1 /3 ib
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 929 Rcrw Memory i8: 66 C1 /3 ib
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 930 Rcrw Gpr16 _1: 66 D1 /3
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 931 Rcrw Memory _1: 66 D1 /3
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 932 Rcrw Gpr16 _Cl: 66 D3 /3
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 933 Rcrw Memory _Cl: 66 D3 /3
{0,{0,0},0,1,{0xc3,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 934 Retq : C3
{0,{0,0},0,1,{0xc2,0x0,0x0,0x0},0,-1,{4,0,0},{2,0,0},{0,0,0}}, // 935 Retq1 i16: C2 iw
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{1,0,0}}, // 936 Rolb Gpr8 i8: C0 /0 ib
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 937 Rolb Memory i8: C0 /0 ib
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 938 Rolb Gpr8 _1: D0 /0
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 939 Rolb Memory _1: D0 /0
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 940 Rolb Gpr8 _Cl: D2 /0
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 941 Rolb Memory _Cl: D2 /0
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 942 Roll Gpr32 i8: C1 /0 ib
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 943 Roll Memory i8: C1 /0 ib
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 944 Roll Gpr32 _1: D1 /0
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 945 Roll Memory _1: D1 /0
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 946 Roll Gpr32 _Cl: D3 /0
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 947 Roll Memory _Cl: D3 /0
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 948 Rolq Gpr64 i8: REX.W+ C1 /0 ib
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 949 Rolq Memory i8: REX.W+ C1 /0 ib
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 950 Rolq Gpr64 _1: REX.W+ D1 /0
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 951 Rolq Memory _1: REX.W+ D1 /0
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 952 Rolq Gpr64 _Cl: REX.W+ D3 /0
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 953 Rolq Memory _Cl: REX.W+ D3 /0
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 954 Rolw Gpr16 i8: 66 C1 /0 ib
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 955 Rolw Memory i8: 66 C1 /0 ib
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 956 Rolw Gpr16 _1: 66 D1 /0
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 957 Rolw Memory _1: 66 D1 /0
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 958 Rolw Gpr16 _Cl: 66 D3 /0
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 959 Rolw Memory _Cl: 66 D3 /0
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{1,0,0}}, // 960 Rorb Gpr8 i8: C0 /1 ib
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 961 Rorb Memory i8: C0 /1 ib
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{1,0,0}}, // 962 Rorb Gpr8 _1: D0 /1
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 963 Rorb Memory _1: D0 /1
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{1,0,0}}, // 964 Rorb Gpr8 _Cl: D2 /1
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 965 Rorb Memory _Cl: D2 /1
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 966 Rorl Gpr32 i8: C1 /1 ib
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 967 Rorl Memory i8: C1 /1 ib
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 968 Rorl Gpr32 _1: D1 /1
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 969 Rorl Memory _1: D1 /1
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 970 Rorl Gpr32 _Cl: D3 /1
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 971 Rorl Memory _Cl: D3 /1
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 972 Rorq Gpr64 i8: REX.W+ C1 /1 ib
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 973 Rorq Memory i8: REX.W+ C1 /1 ib
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 974 Rorq Gpr64 _1: REX.W+ D1 /1
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 975 Rorq Memory _1: REX.W+ D1 /1
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 976 Rorq Gpr64 _Cl: REX.W+ D3 /1
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 977 Rorq Memory _Cl: REX.W+ D3 /1
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 978 Rorw Gpr16 i8: 66 C1 /1 ib
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,1,{2,4,0},{0,1,0},{0,0,0}}, // 979 Rorw Memory i8: 66 C1 /1 ib
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 980 Rorw Gpr16 _1: 66 D1 /1
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 981 Rorw Memory _1: 66 D1 /1
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 982 Rorw Gpr16 _Cl: 66 D3 /1
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 983 Rorw Memory _Cl: 66 D3 /1
{1,{102,0},0,3,{0xf,0x3a,0x9,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 984 Roundpd Xmm Xmm i8: 66 0F 3A 09 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x9,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 985 Roundpd Xmm Memory i8: 66 0F 3A 09 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x8,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 986 Roundps Xmm Xmm i8: 66 0F 3A 08 /r ib
{1,{102,0},0,3,{0xf,0x3a,0x8,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 987 Roundps Xmm Memory i8: 66 0F 3A 08 /r ib
{1,{102,0},0,3,{0xf,0x3a,0xb,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 988 Roundsd Xmm Xmm i8: 66 0F 3A 0B /r ib
{1,{102,0},0,3,{0xf,0x3a,0xb,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 989 Roundsd Xmm Memory i8: 66 0F 3A 0B /r ib
{1,{102,0},0,3,{0xf,0x3a,0xa,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 990 Roundss Xmm Xmm i8: 66 0F 3A 0A /r ib
{1,{102,0},0,3,{0xf,0x3a,0xa,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 991 Roundss Xmm Memory i8: 66 0F 3A 0A /r ib
{0,{0,0},0,2,{0xf,0x52,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 992 Rsqrtps Xmm Xmm: 0F 52 /r
{0,{0,0},0,2,{0xf,0x52,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 993 Rsqrtps Xmm Memory: 0F 52 /r
{1,{243,0},0,2,{0xf,0x52,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 994 Rsqrtss Xmm Xmm: F3 0F 52 /r
{1,{243,0},0,2,{0xf,0x52,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 995 Rsqrtss Xmm Memory: F3 0F 52 /r
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{1,0,0}}, // 996 Salb Gpr8 i8: C0 /4 ib
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 997 Salb Memory i8: C0 /4 ib
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{1,0,0}}, // 998 Salb Gpr8 _1: D0 /4
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 999 Salb Memory _1: D0 /4
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{1,0,0}}, // 1000 Salb Gpr8 _Cl: D2 /4
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1001 Salb Memory _Cl: D2 /4
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1002 Sall Gpr32 i8: C1 /4 ib
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1003 Sall Memory i8: C1 /4 ib
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1004 Sall Gpr32 _1: D1 /4
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1005 Sall Memory _1: D1 /4
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1006 Sall Gpr32 _Cl: D3 /4
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1007 Sall Memory _Cl: D3 /4
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1008 Salq Gpr64 i8: REX.W+ C1 /4 ib
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1009 Salq Memory i8: REX.W+ C1 /4 ib
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1010 Salq Gpr64 _1: REX.W+ D1 /4
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1011 Salq Memory _1: REX.W+ D1 /4
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1012 Salq Gpr64 _Cl: REX.W+ D3 /4
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1013 Salq Memory _Cl: REX.W+ D3 /4
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1014 Salw Gpr16 i8: 66 C1 /4 ib
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1015 Salw Memory i8: 66 C1 /4 ib
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1016 Salw Gpr16 _1: 66 D1 /4
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1017 Salw Memory _1: 66 D1 /4
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1018 Salw Gpr16 _Cl: 66 D3 /4
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1019 Salw Memory _Cl: 66 D3 /4
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{1,0,0}}, // 1020 Sarb Gpr8 i8: C0 /7 ib
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 1021 Sarb Memory i8: C0 /7 ib
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{1,0,0}}, // 1022 Sarb Gpr8 _1: D0 /7
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1023 Sarb Memory _1: D0 /7
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{1,0,0}}, // 1024 Sarb Gpr8 _Cl: D2 /7
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1025 Sarb Memory _Cl: D2 /7
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 1026 Sarl Gpr32 i8: C1 /7 ib
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 1027 Sarl Memory i8: C1 /7 ib
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1028 Sarl Gpr32 _1: D1 /7
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1029 Sarl Memory _1: D1 /7
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1030 Sarl Gpr32 _Cl: D3 /7
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1031 Sarl Memory _Cl: D3 /7
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 1032 Sarq Gpr64 i8: REX.W+ C1 /7 ib
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 1033 Sarq Memory i8: REX.W+ C1 /7 ib
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1034 Sarq Gpr64 _1: REX.W+ D1 /7
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1035 Sarq Memory _1: REX.W+ D1 /7
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1036 Sarq Gpr64 _Cl: REX.W+ D3 /7
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1037 Sarq Memory _Cl: REX.W+ D3 /7
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 1038 Sarw Gpr16 i8: 66 C1 /7 ib
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,7,{2,4,0},{0,1,0},{0,0,0}}, // 1039 Sarw Memory i8: 66 C1 /7 ib
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1040 Sarw Gpr16 _1: 66 D1 /7
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1041 Sarw Memory _1: 66 D1 /7
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1042 Sarw Gpr16 _Cl: 66 D3 /7
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,7,{2,0,0},{0,0,0},{0,0,0}}, // 1043 Sarw Memory _Cl: 66 D3 /7
{0,{0,0},0,1,{0x1a,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,1,0}}, // 1044 Sbbb Gpr8 Gpr8: 1A /r
{0,{0,0},0,1,{0x1a,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,0,0}}, // 1045 Sbbb Gpr8 Memory: 1A /r
{0,{0,0},0,1,{0x18,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 1046 Sbbb Memory Gpr8: 18 /r
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{1,0,0}}, // 1047 Sbbb Gpr8 i8: 80 /3 ib
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 1048 Sbbb Memory i8: 80 /3 ib
{0,{0,0},0,1,{0x1c,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 1049 Sbbb _Al i8: 1C ib
{0,{0,0},0,1,{0x1b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1050 Sbbl Gpr32 Gpr32: 1B /r
{0,{0,0},0,1,{0x1b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1051 Sbbl Gpr32 Memory: 1B /r
{0,{0,0},0,1,{0x19,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1052 Sbbl Memory Gpr32: 19 /r
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 1053 Sbbl Gpr32 i8: 83 /3 ib
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 1054 Sbbl Memory i8: 83 /3 ib
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,3,{2,4,0},{0,4,0},{0,0,0}}, // 1055 Sbbl Gpr32 i32: 81 /3 id
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,3,{2,4,0},{0,4,0},{0,0,0}}, // 1056 Sbbl Memory i32: 81 /3 id
{0,{0,0},0,1,{0x1d,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 1057 Sbbl _Eax i32: 1D id
{0,{0,0},1,1,{0x1b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1058 Sbbq Gpr64 Gpr64: REX.W+ 1B /r
{0,{0,0},1,1,{0x1b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1059 Sbbq Gpr64 Memory: REX.W+ 1B /r
{0,{0,0},1,1,{0x19,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1060 Sbbq Memory Gpr64: REX.W+ 19 /r
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 1061 Sbbq Gpr64 i8: REX.W+ 83 /3 ib
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 1062 Sbbq Memory i8: REX.W+ 83 /3 ib
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,3,{2,4,0},{0,4,0},{0,0,0}}, // 1063 Sbbq Gpr64 i32: REX.W+ 81 /3 id
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,3,{2,4,0},{0,4,0},{0,0,0}}, // 1064 Sbbq Memory i32: REX.W+ 81 /3 id
{0,{0,0},1,1,{0x1d,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 1065 Sbbq _Rax i32: REX.W+ 1D id
{1,{102,0},0,1,{0x1b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1066 Sbbw Gpr16 Gpr16: 66 1B /r
{1,{102,0},0,1,{0x1b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1067 Sbbw Gpr16 Memory: 66 1B /r
{1,{102,0},0,1,{0x19,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1068 Sbbw Memory Gpr16: 66 19 /r
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 1069 Sbbw Gpr16 i8: 66 83 /3 ib
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,3,{2,4,0},{0,1,0},{0,0,0}}, // 1070 Sbbw Memory i8: 66 83 /3 ib
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,3,{2,4,0},{0,2,0},{0,0,0}}, // 1071 Sbbw Gpr16 i16: 66 81 /3 iw
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,3,{2,4,0},{0,2,0},{0,0,0}}, // 1072 Sbbw Memory i16: 66 81 /3 iw
{1,{102,0},0,1,{0x1d,0x0,0x0,0x0},0,-1,{0,4,0},{0,2,0},{0,0,0}}, // 1073 Sbbw _Ax i16: 66 1D iw
{0,{0,0},0,2,{0xf,0x97,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1074 Seta Gpr8: 0F 97 /0
{0,{0,0},0,2,{0xf,0x97,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1075 Seta Memory: 0F 97 /0
{0,{0,0},0,2,{0xf,0x93,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1076 Setae Gpr8: 0F 93 /0
{0,{0,0},0,2,{0xf,0x93,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1077 Setae Memory: 0F 93 /0
{0,{0,0},0,2,{0xf,0x92,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1078 Setb Gpr8: 0F 92 /0
{0,{0,0},0,2,{0xf,0x92,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1079 Setb Memory: 0F 92 /0
{0,{0,0},0,2,{0xf,0x96,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1080 Setbe Gpr8: 0F 96 /0
{0,{0,0},0,2,{0xf,0x96,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1081 Setbe Memory: 0F 96 /0
{0,{0,0},0,2,{0xf,0x92,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1082 Setc Gpr8: 0F 92 /0
{0,{0,0},0,2,{0xf,0x92,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1083 Setc Memory: 0F 92 /0
{0,{0,0},0,2,{0xf,0x94,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1084 Sete Gpr8: 0F 94 /0
{0,{0,0},0,2,{0xf,0x94,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1085 Sete Memory: 0F 94 /0
{0,{0,0},0,2,{0xf,0x9f,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1086 Setg Gpr8: 0F 9F /0
{0,{0,0},0,2,{0xf,0x9f,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1087 Setg Memory: 0F 9F /0
{0,{0,0},0,2,{0xf,0x9d,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1088 Setge Gpr8: 0F 9D /0
{0,{0,0},0,2,{0xf,0x9d,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1089 Setge Memory: 0F 9D /0
{0,{0,0},0,2,{0xf,0x9c,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1090 Setl Gpr8: 0F 9C /0
{0,{0,0},0,2,{0xf,0x9c,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1091 Setl Memory: 0F 9C /0
{0,{0,0},0,2,{0xf,0x9e,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1092 Setle Gpr8: 0F 9E /0
{0,{0,0},0,2,{0xf,0x9e,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1093 Setle Memory: 0F 9E /0
{0,{0,0},0,2,{0xf,0x96,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1094 Setna Gpr8: 0F 96 /0
{0,{0,0},0,2,{0xf,0x96,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1095 Setna Memory: 0F 96 /0
{0,{0,0},0,2,{0xf,0x92,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1096 Setnae Gpr8: 0F 92 /0
{0,{0,0},0,2,{0xf,0x92,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1097 Setnae Memory: 0F 92 /0
{0,{0,0},0,2,{0xf,0x93,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1098 Setnb Gpr8: 0F 93 /0
{0,{0,0},0,2,{0xf,0x93,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1099 Setnb Memory: 0F 93 /0
{0,{0,0},0,2,{0xf,0x97,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1100 Setnbe Gpr8: 0F 97 /0
{0,{0,0},0,2,{0xf,0x97,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1101 Setnbe Memory: 0F 97 /0
{0,{0,0},0,2,{0xf,0x93,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1102 Setnc Gpr8: 0F 93 /0
{0,{0,0},0,2,{0xf,0x93,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1103 Setnc Memory: 0F 93 /0
{0,{0,0},0,2,{0xf,0x95,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1104 Setne Gpr8: 0F 95 /0
{0,{0,0},0,2,{0xf,0x95,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1105 Setne Memory: 0F 95 /0
{0,{0,0},0,2,{0xf,0x9e,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1106 Setng Gpr8: 0F 9E /0
{0,{0,0},0,2,{0xf,0x9e,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1107 Setng Memory: 0F 9E /0
{0,{0,0},0,2,{0xf,0x9c,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1108 Setnge Gpr8: 0F 9C /0
{0,{0,0},0,2,{0xf,0x9c,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1109 Setnge Memory: 0F 9C /0
{0,{0,0},0,2,{0xf,0x9d,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1110 Setnl Gpr8: 0F 9D /0
{0,{0,0},0,2,{0xf,0x9d,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1111 Setnl Memory: 0F 9D /0
{0,{0,0},0,2,{0xf,0x9f,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1112 Setnle Gpr8: 0F 9F /0
{0,{0,0},0,2,{0xf,0x9f,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1113 Setnle Memory: 0F 9F /0
{0,{0,0},0,2,{0xf,0x91,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1114 Setno Gpr8: 0F 91 /0
{0,{0,0},0,2,{0xf,0x91,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1115 Setno Memory: 0F 91 /0
{0,{0,0},0,2,{0xf,0x9b,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1116 Setnp Gpr8: 0F 9B /0
{0,{0,0},0,2,{0xf,0x9b,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1117 Setnp Memory: 0F 9B /0
{0,{0,0},0,2,{0xf,0x99,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1118 Setns Gpr8: 0F 99 /0
{0,{0,0},0,2,{0xf,0x99,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1119 Setns Memory: 0F 99 /0
{0,{0,0},0,2,{0xf,0x95,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1120 Setnz Gpr8: 0F 95 /0
{0,{0,0},0,2,{0xf,0x95,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1121 Setnz Memory: 0F 95 /0
{0,{0,0},0,2,{0xf,0x90,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1122 Seto Gpr8: 0F 90 /0
{0,{0,0},0,2,{0xf,0x90,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1123 Seto Memory: 0F 90 /0
{0,{0,0},0,2,{0xf,0x9a,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1124 Setp Gpr8: 0F 9A /0
{0,{0,0},0,2,{0xf,0x9a,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1125 Setp Memory: 0F 9A /0
{0,{0,0},0,2,{0xf,0x9a,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1126 Setpe Gpr8: 0F 9A /0
{0,{0,0},0,2,{0xf,0x9a,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1127 Setpe Memory: 0F 9A /0
{0,{0,0},0,2,{0xf,0x9b,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1128 Setpo Gpr8: 0F 9B /0
{0,{0,0},0,2,{0xf,0x9b,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1129 Setpo Memory: 0F 9B /0
{0,{0,0},0,2,{0xf,0x98,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1130 Sets Gpr8: 0F 98 /0
{0,{0,0},0,2,{0xf,0x98,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1131 Sets Memory: 0F 98 /0
{0,{0,0},0,2,{0xf,0x94,0x0,0x0},0,0,{2,0,0},{0,0,0},{1,0,0}}, // 1132 Setz Gpr8: 0F 94 /0
{0,{0,0},0,2,{0xf,0x94,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1133 Setz Memory: 0F 94 /0
{0,{0,0},0,3,{0xf,0xae,0xf8,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 1134 Sfence : 0F AE F8
{0,{0,0},0,2,{0xf,0x1,0x0,0x0},0,0,{2,0,0},{0,0,0},{0,0,0}}, // 1135 Sgdt Memory: 0F 01 /0
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{1,0,0}}, // 1136 Shlb Gpr8 i8: C0 /4 ib
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1137 Shlb Memory i8: C0 /4 ib
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{1,0,0}}, // 1138 Shlb Gpr8 _1: D0 /4
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1139 Shlb Memory _1: D0 /4
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{1,0,0}}, // 1140 Shlb Gpr8 _Cl: D2 /4
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1141 Shlb Memory _Cl: D2 /4
{0,{0,0},0,2,{0xf,0xa4,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1142 Shldl Gpr32 Gpr32 i8: 0F A4 /r ib
{0,{0,0},0,2,{0xf,0xa4,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1143 Shldl Memory Gpr32 i8: 0F A4 /r ib
{0,{0,0},0,2,{0xf,0xa5,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1144 Shldl Gpr32 Gpr32 _Cl: 0F A5 /r
{0,{0,0},0,2,{0xf,0xa5,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1145 Shldl Memory Gpr32 _Cl: 0F A5 /r
{0,{0,0},1,2,{0xf,0xa4,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1146 Shldq Gpr64 Gpr64 i8: REX.W+ 0F A4 /r ib
{0,{0,0},1,2,{0xf,0xa4,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1147 Shldq Memory Gpr64 i8: REX.W+ 0F A4 /r ib
{0,{0,0},1,2,{0xf,0xa5,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1148 Shldq Gpr64 Gpr64 _Cl: REX.W+ 0F A5 /r
{0,{0,0},1,2,{0xf,0xa5,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1149 Shldq Memory Gpr64 _Cl: REX.W+ 0F A5 /r
{1,{102,0},0,2,{0xf,0xa4,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1150 Shldw Gpr16 Gpr16 i8: 66 0F A4 /r ib
{1,{102,0},0,2,{0xf,0xa4,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1151 Shldw Memory Gpr16 i8: 66 0F A4 /r ib
{1,{102,0},0,2,{0xf,0xa5,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1152 Shldw Gpr16 Gpr16 _Cl: 66 0F A5 /r
{1,{102,0},0,2,{0xf,0xa5,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1153 Shldw Memory Gpr16 _Cl: 66 0F A5 /r
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1154 Shll Gpr32 i8: C1 /4 ib
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1155 Shll Memory i8: C1 /4 ib
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1156 Shll Gpr32 _1: D1 /4
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1157 Shll Memory _1: D1 /4
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1158 Shll Gpr32 _Cl: D3 /4
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1159 Shll Memory _Cl: D3 /4
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1160 Shlq Gpr64 i8: REX.W+ C1 /4 ib
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1161 Shlq Memory i8: REX.W+ C1 /4 ib
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1162 Shlq Gpr64 _1: REX.W+ D1 /4
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1163 Shlq Memory _1: REX.W+ D1 /4
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1164 Shlq Gpr64 _Cl: REX.W+ D3 /4
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1165 Shlq Memory _Cl: REX.W+ D3 /4
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1166 Shlw Gpr16 i8: 66 C1 /4 ib
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,4,{2,4,0},{0,1,0},{0,0,0}}, // 1167 Shlw Memory i8: 66 C1 /4 ib
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1168 Shlw Gpr16 _1: 66 D1 /4
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1169 Shlw Memory _1: 66 D1 /4
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1170 Shlw Gpr16 _Cl: 66 D3 /4
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1171 Shlw Memory _Cl: 66 D3 /4
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{1,0,0}}, // 1172 Shrb Gpr8 i8: C0 /5 ib
{0,{0,0},0,1,{0xc0,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1173 Shrb Memory i8: C0 /5 ib
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{1,0,0}}, // 1174 Shrb Gpr8 _1: D0 /5
{0,{0,0},0,1,{0xd0,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1175 Shrb Memory _1: D0 /5
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{1,0,0}}, // 1176 Shrb Gpr8 _Cl: D2 /5
{0,{0,0},0,1,{0xd2,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1177 Shrb Memory _Cl: D2 /5
{0,{0,0},0,2,{0xf,0xac,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1178 Shrdl Gpr32 Gpr32 i8: 0F AC /r ib
{0,{0,0},0,2,{0xf,0xac,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1179 Shrdl Memory Gpr32 i8: 0F AC /r ib
{0,{0,0},0,2,{0xf,0xad,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1180 Shrdl Gpr32 Gpr32 _Cl: 0F AD /r
{0,{0,0},0,2,{0xf,0xad,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1181 Shrdl Memory Gpr32 _Cl: 0F AD /r
{0,{0,0},1,2,{0xf,0xac,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1182 Shrdq Gpr64 Gpr64 i8: REX.W+ 0F AC /r ib
{0,{0,0},1,2,{0xf,0xac,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1183 Shrdq Memory Gpr64 i8: REX.W+ 0F AC /r ib
{0,{0,0},1,2,{0xf,0xad,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1184 Shrdq Gpr64 Gpr64 _Cl: REX.W+ 0F AD /r
{0,{0,0},1,2,{0xf,0xad,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1185 Shrdq Memory Gpr64 _Cl: REX.W+ 0F AD /r
{1,{102,0},0,2,{0xf,0xac,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1186 Shrdw Gpr16 Gpr16 i8: 66 0F AC /r ib
{1,{102,0},0,2,{0xf,0xac,0x0,0x0},0,8,{2,1,4},{0,0,1},{0,0,0}}, // 1187 Shrdw Memory Gpr16 i8: 66 0F AC /r ib
{1,{102,0},0,2,{0xf,0xad,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1188 Shrdw Gpr16 Gpr16 _Cl: 66 0F AD /r
{1,{102,0},0,2,{0xf,0xad,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1189 Shrdw Memory Gpr16 _Cl: 66 0F AD /r
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1190 Shrl Gpr32 i8: C1 /5 ib
{0,{0,0},0,1,{0xc1,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1191 Shrl Memory i8: C1 /5 ib
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1192 Shrl Gpr32 _1: D1 /5
{0,{0,0},0,1,{0xd1,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1193 Shrl Memory _1: D1 /5
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1194 Shrl Gpr32 _Cl: D3 /5
{0,{0,0},0,1,{0xd3,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1195 Shrl Memory _Cl: D3 /5
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1196 Shrq Gpr64 i8: REX.W+ C1 /5 ib
{0,{0,0},1,1,{0xc1,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1197 Shrq Memory i8: REX.W+ C1 /5 ib
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1198 Shrq Gpr64 _1: REX.W+ D1 /5
{0,{0,0},1,1,{0xd1,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1199 Shrq Memory _1: REX.W+ D1 /5
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1200 Shrq Gpr64 _Cl: REX.W+ D3 /5
{0,{0,0},1,1,{0xd3,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1201 Shrq Memory _Cl: REX.W+ D3 /5
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1202 Shrw Gpr16 i8: 66 C1 /5 ib
{1,{102,0},0,1,{0xc1,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1203 Shrw Memory i8: 66 C1 /5 ib
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1204 Shrw Gpr16 _1: 66 D1 /5
{1,{102,0},0,1,{0xd1,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1205 Shrw Memory _1: 66 D1 /5
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1206 Shrw Gpr16 _Cl: 66 D3 /5
{1,{102,0},0,1,{0xd3,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1207 Shrw Memory _Cl: 66 D3 /5
{1,{102,0},0,2,{0xf,0xc6,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 1208 Shufpd Xmm Xmm i8: 66 0F C6 /r ib
{1,{102,0},0,2,{0xf,0xc6,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 1209 Shufpd Xmm Memory i8: 66 0F C6 /r ib
{0,{0,0},0,2,{0xf,0xc6,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 1210 Shufps Xmm Xmm i8: 0F C6 /r ib
{0,{0,0},0,2,{0xf,0xc6,0x0,0x0},0,8,{1,2,4},{0,0,1},{0,0,0}}, // 1211 Shufps Xmm Memory i8: 0F C6 /r ib
{0,{0,0},0,2,{0xf,0x1,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 1212 Sidt Memory: 0F 01 /1
{1,{102,0},0,2,{0xf,0x51,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1213 Sqrtpd Xmm Xmm: 66 0F 51 /r
{1,{102,0},0,2,{0xf,0x51,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1214 Sqrtpd Xmm Memory: 66 0F 51 /r
{0,{0,0},0,2,{0xf,0x51,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1215 Sqrtps Xmm Xmm: 0F 51 /r
{0,{0,0},0,2,{0xf,0x51,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1216 Sqrtps Xmm Memory: 0F 51 /r
{1,{242,0},0,2,{0xf,0x51,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1217 Sqrtsd Xmm Xmm: F2 0F 51 /r
{1,{242,0},0,2,{0xf,0x51,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1218 Sqrtsd Xmm Memory: F2 0F 51 /r
{1,{243,0},0,2,{0xf,0x51,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1219 Sqrtss Xmm Xmm: F3 0F 51 /r
{1,{243,0},0,2,{0xf,0x51,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1220 Sqrtss Xmm Memory: F3 0F 51 /r
{0,{0,0},0,1,{0xf9,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 1221 Stc : F9
{0,{0,0},0,1,{0xfd,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 1222 Std : FD
{0,{0,0},0,1,{0xfb,0x0,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 1223 Sti : FB
{0,{0,0},0,2,{0xf,0xae,0x0,0x0},0,3,{2,0,0},{0,0,0},{0,0,0}}, // 1224 Stmxcsr Memory: 0F AE /3
{1,{102,0},0,2,{0xf,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 1225 Str Gpr16: 66 0F 00 /1
{1,{102,0},0,2,{0xf,0x0,0x0,0x0},0,1,{2,0,0},{0,0,0},{0,0,0}}, // 1226 Str Memory: 66 0F 00 /1
{0,{0,0},0,1,{0x2a,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,1,0}}, // 1227 Subb Gpr8 Gpr8: 2A /r
{0,{0,0},0,1,{0x2a,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,0,0}}, // 1228 Subb Gpr8 Memory: 2A /r
{0,{0,0},0,1,{0x28,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 1229 Subb Memory Gpr8: 28 /r
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{1,0,0}}, // 1230 Subb Gpr8 i8: 80 /5 ib
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1231 Subb Memory i8: 80 /5 ib
{0,{0,0},0,1,{0x2c,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 1232 Subb _Al i8: 2C ib
{0,{0,0},0,1,{0x2b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1233 Subl Gpr32 Gpr32: 2B /r
{0,{0,0},0,1,{0x2b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1234 Subl Gpr32 Memory: 2B /r
{0,{0,0},0,1,{0x29,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1235 Subl Memory Gpr32: 29 /r
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1236 Subl Gpr32 i8: 83 /5 ib
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1237 Subl Memory i8: 83 /5 ib
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,5,{2,4,0},{0,4,0},{0,0,0}}, // 1238 Subl Gpr32 i32: 81 /5 id
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,5,{2,4,0},{0,4,0},{0,0,0}}, // 1239 Subl Memory i32: 81 /5 id
{0,{0,0},0,1,{0x2d,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 1240 Subl _Eax i32: 2D id
{1,{102,0},0,2,{0xf,0x5c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1241 Subpd Xmm Xmm: 66 0F 5C /r
{1,{102,0},0,2,{0xf,0x5c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1242 Subpd Xmm Memory: 66 0F 5C /r
{0,{0,0},0,2,{0xf,0x5c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1243 Subps Xmm Xmm: 0F 5C /r
{0,{0,0},0,2,{0xf,0x5c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1244 Subps Xmm Memory: 0F 5C /r
{0,{0,0},1,1,{0x2b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1245 Subq Gpr64 Gpr64: REX.W+ 2B /r
{0,{0,0},1,1,{0x2b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1246 Subq Gpr64 Memory: REX.W+ 2B /r
{0,{0,0},1,1,{0x29,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1247 Subq Memory Gpr64: REX.W+ 29 /r
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1248 Subq Gpr64 i8: REX.W+ 83 /5 ib
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1249 Subq Memory i8: REX.W+ 83 /5 ib
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,5,{2,4,0},{0,4,0},{0,0,0}}, // 1250 Subq Gpr64 i32: REX.W+ 81 /5 id
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,5,{2,4,0},{0,4,0},{0,0,0}}, // 1251 Subq Memory i32: REX.W+ 81 /5 id
{0,{0,0},1,1,{0x2d,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 1252 Subq _Rax i32: REX.W+ 2D id
{1,{242,0},0,2,{0xf,0x5c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1253 Subsd Xmm Xmm: F2 0F 5C /r
{1,{242,0},0,2,{0xf,0x5c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1254 Subsd Xmm Memory: F2 0F 5C /r
{1,{243,0},0,2,{0xf,0x5c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1255 Subss Xmm Xmm: F3 0F 5C /r
{1,{243,0},0,2,{0xf,0x5c,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1256 Subss Xmm Memory: F3 0F 5C /r
{1,{102,0},0,1,{0x2b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1257 Subw Gpr16 Gpr16: 66 2B /r
{1,{102,0},0,1,{0x2b,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1258 Subw Gpr16 Memory: 66 2B /r
{1,{102,0},0,1,{0x29,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1259 Subw Memory Gpr16: 66 29 /r
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1260 Subw Gpr16 i8: 66 83 /5 ib
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,5,{2,4,0},{0,1,0},{0,0,0}}, // 1261 Subw Memory i8: 66 83 /5 ib
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,5,{2,4,0},{0,2,0},{0,0,0}}, // 1262 Subw Gpr16 i16: 66 81 /5 iw
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,5,{2,4,0},{0,2,0},{0,0,0}}, // 1263 Subw Memory i16: 66 81 /5 iw
{1,{102,0},0,1,{0x2d,0x0,0x0,0x0},0,-1,{0,4,0},{0,2,0},{0,0,0}}, // 1264 Subw _Ax i16: 66 2D iw
{0,{0,0},0,3,{0xf,0x1,0xf8,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 1265 Swapgs : 0F 01 F8
{0,{0,0},0,1,{0x84,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{1,1,0}}, // 1266 Testb Gpr8 Gpr8: 84 /r
{0,{0,0},0,1,{0x84,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 1267 Testb Memory Gpr8: 84 /r
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{1,0,0}}, // 1268 Testb Gpr8 i8: F6 /0 ib
{0,{0,0},0,1,{0xf6,0x0,0x0,0x0},0,0,{2,4,0},{0,1,0},{0,0,0}}, // 1269 Testb Memory i8: F6 /0 ib
{0,{0,0},0,1,{0xa8,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 1270 Testb _Al i8: A8 ib
{0,{0,0},0,1,{0x85,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1271 Testl Gpr32 Gpr32: 85 /r
{0,{0,0},0,1,{0x85,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1272 Testl Memory Gpr32: 85 /r
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,0,{2,4,0},{0,4,0},{0,0,0}}, // 1273 Testl Gpr32 i32: F7 /0 id
{0,{0,0},0,1,{0xf7,0x0,0x0,0x0},0,0,{2,4,0},{0,4,0},{0,0,0}}, // 1274 Testl Memory i32: F7 /0 id
{0,{0,0},0,1,{0xa9,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 1275 Testl _Eax i32: A9 id
{0,{0,0},1,1,{0x85,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1276 Testq Gpr64 Gpr64: REX.W+ 85 /r
{0,{0,0},1,1,{0x85,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1277 Testq Memory Gpr64: REX.W+ 85 /r
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,0,{2,4,0},{0,4,0},{0,0,0}}, // 1278 Testq Gpr64 i32: REX.W+ F7 /0 id
{0,{0,0},1,1,{0xf7,0x0,0x0,0x0},0,0,{2,4,0},{0,4,0},{0,0,0}}, // 1279 Testq Memory i32: REX.W+ F7 /0 id
{0,{0,0},1,1,{0xa9,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 1280 Testq _Rax i32: REX.W+ A9 id
{1,{102,0},0,1,{0x85,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1281 Testw Gpr16 Gpr16: 66 85 /r
{1,{102,0},0,1,{0x85,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1282 Testw Memory Gpr16: 66 85 /r
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,0,{2,4,0},{0,2,0},{0,0,0}}, // 1283 Testw Gpr16 i16: 66 F7 /0 iw
{1,{102,0},0,1,{0xf7,0x0,0x0,0x0},0,0,{2,4,0},{0,2,0},{0,0,0}}, // 1284 Testw Memory i16: 66 F7 /0 iw
{1,{102,0},0,1,{0xa9,0x0,0x0,0x0},0,-1,{0,4,0},{0,2,0},{0,0,0}}, // 1285 Testw _Ax i16: 66 A9 iw
{1,{102,0},0,2,{0xf,0x2e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1286 Ucomisd Xmm Xmm: 66 0F 2E /r
{1,{102,0},0,2,{0xf,0x2e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1287 Ucomisd Xmm Memory: 66 0F 2E /r
{0,{0,0},0,2,{0xf,0x2e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1288 Ucomiss Xmm Xmm: 0F 2E /r
{0,{0,0},0,2,{0xf,0x2e,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1289 Ucomiss Xmm Memory: 0F 2E /r
{0,{0,0},0,2,{0xf,0xb,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 1290 Ud2 : 0F 0B
{1,{102,0},0,2,{0xf,0x15,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1291 Unpckhpd Xmm Xmm: 66 0F 15 /r
{1,{102,0},0,2,{0xf,0x15,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1292 Unpckhpd Xmm Memory: 66 0F 15 /r
{0,{0,0},0,2,{0xf,0x15,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1293 Unpckhps Xmm Xmm: 0F 15 /r
{0,{0,0},0,2,{0xf,0x15,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1294 Unpckhps Xmm Memory: 0F 15 /r
{1,{102,0},0,2,{0xf,0x14,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1295 Unpcklpd Xmm Xmm: 66 0F 14 /r
{1,{102,0},0,2,{0xf,0x14,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1296 Unpcklpd Xmm Memory: 66 0F 14 /r
{0,{0,0},0,2,{0xf,0x14,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1297 Unpcklps Xmm Xmm: 0F 14 /r
{0,{0,0},0,2,{0xf,0x14,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1298 Unpcklps Xmm Memory: 0F 14 /r
{0,{0,0},0,2,{0xf,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1299 Verr Gpr16: 0F 00 /4
{0,{0,0},0,2,{0xf,0x0,0x0,0x0},0,4,{2,0,0},{0,0,0},{0,0,0}}, // 1300 Verr Memory: 0F 00 /4
{0,{0,0},0,2,{0xf,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1301 Verw Gpr16: 0F 00 /5
{0,{0,0},0,2,{0xf,0x0,0x0,0x0},0,5,{2,0,0},{0,0,0},{0,0,0}}, // 1302 Verw Memory: 0F 00 /5
{0,{0,0},0,2,{0xf,0x9,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 1303 Wbinvd : 0F 09
{0,{0,0},0,2,{0xf,0x30,0x0,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 1304 Wrmsr : 0F 30
{0,{0,0},0,2,{0xf,0xc0,0x0,0x0},0,8,{2,1,0},{0,0,0},{1,1,0}}, // 1305 Xaddb Gpr8 Gpr8: 0F C0 /r
{0,{0,0},0,2,{0xf,0xc0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 1306 Xaddb Memory Gpr8: 0F C0 /r
{0,{0,0},0,2,{0xf,0xc1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1307 Xaddl Gpr32 Gpr32: 0F C1 /r
{0,{0,0},0,2,{0xf,0xc1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1308 Xaddl Memory Gpr32: 0F C1 /r
{0,{0,0},1,2,{0xf,0xc1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1309 Xaddq Gpr64 Gpr64: REX.W+ 0F C1 /r
{0,{0,0},1,2,{0xf,0xc1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1310 Xaddq Memory Gpr64: REX.W+ 0F C1 /r
{1,{102,0},0,2,{0xf,0xc1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1311 Xaddw Gpr16 Gpr16: 66 0F C1 /r
{1,{102,0},0,2,{0xf,0xc1,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1312 Xaddw Memory Gpr16: 66 0F C1 /r
{0,{0,0},0,1,{0x86,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,1,0}}, // 1313 Xchgb Gpr8 Gpr8: 86 /r
{0,{0,0},0,1,{0x86,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,0,0}}, // 1314 Xchgb Gpr8 Memory: 86 /r
{0,{0,0},0,1,{0x86,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 1315 Xchgb Memory Gpr8: 86 /r
{0,{0,0},0,1,{0x87,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1316 Xchgl Gpr32 Gpr32: 87 /r
{0,{0,0},0,1,{0x87,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1317 Xchgl Gpr32 Memory: 87 /r
{0,{0,0},0,1,{0x90,0x0,0x0,0x0},1,-1,{3,0,0},{0,0,0},{0,0,0}}, // 1318 Xchgl Gpr32 _Eax: 90 +rd
{0,{0,0},0,1,{0x87,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1319 Xchgl Memory Gpr32: 87 /r
{0,{0,0},0,1,{0x90,0x0,0x0,0x0},1,-1,{0,3,0},{0,0,0},{0,0,0}}, // 1320 Xchgl _Eax Gpr32: 90 +rd
{0,{0,0},1,1,{0x87,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1321 Xchgq Gpr64 Gpr64: REX.W+ 87 /r
{0,{0,0},1,1,{0x87,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1322 Xchgq Gpr64 Memory: REX.W+ 87 /r
{0,{0,0},1,1,{0x90,0x0,0x0,0x0},1,-1,{3,0,0},{0,0,0},{0,0,0}}, // 1323 Xchgq Gpr64 _Rax: REX.W+ 90 +ro
{0,{0,0},1,1,{0x87,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1324 Xchgq Memory Gpr64: REX.W+ 87 /r
{0,{0,0},1,1,{0x90,0x0,0x0,0x0},1,-1,{0,3,0},{0,0,0},{0,0,0}}, // 1325 Xchgq _Rax Gpr64: REX.W+ 90 +ro
{1,{102,0},0,1,{0x87,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1326 Xchgw Gpr16 Gpr16: 66 87 /r
{1,{102,0},0,1,{0x87,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1327 Xchgw Gpr16 Memory: 66 87 /r
{1,{102,0},0,1,{0x90,0x0,0x0,0x0},1,-1,{3,0,0},{0,0,0},{0,0,0}}, // 1328 Xchgw Gpr16 _Ax: 66 90 +rw
{1,{102,0},0,1,{0x87,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1329 Xchgw Memory Gpr16: 66 87 /r
{1,{102,0},0,1,{0x90,0x0,0x0,0x0},1,-1,{0,3,0},{0,0,0},{0,0,0}}, // 1330 Xchgw _Ax Gpr16: 66 90 +rw
{0,{0,0},0,1,{0x32,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,1,0}}, // 1331 Xorb Gpr8 Gpr8: 32 /r
{0,{0,0},0,1,{0x32,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{1,0,0}}, // 1332 Xorb Gpr8 Memory: 32 /r
{0,{0,0},0,1,{0x30,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,1,0}}, // 1333 Xorb Memory Gpr8: 30 /r
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,6,{2,4,0},{0,1,0},{1,0,0}}, // 1334 Xorb Gpr8 i8: 80 /6 ib
{0,{0,0},0,1,{0x80,0x0,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 1335 Xorb Memory i8: 80 /6 ib
{0,{0,0},0,1,{0x34,0x0,0x0,0x0},0,-1,{0,4,0},{0,1,0},{0,0,0}}, // 1336 Xorb _Al i8: 34 ib
{0,{0,0},0,1,{0x33,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1337 Xorl Gpr32 Gpr32: 33 /r
{0,{0,0},0,1,{0x33,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1338 Xorl Gpr32 Memory: 33 /r
{0,{0,0},0,1,{0x31,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1339 Xorl Memory Gpr32: 31 /r
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 1340 Xorl Gpr32 i8: 83 /6 ib
{0,{0,0},0,1,{0x83,0x0,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 1341 Xorl Memory i8: 83 /6 ib
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,6,{2,4,0},{0,4,0},{0,0,0}}, // 1342 Xorl Gpr32 i32: 81 /6 id
{0,{0,0},0,1,{0x81,0x0,0x0,0x0},0,6,{2,4,0},{0,4,0},{0,0,0}}, // 1343 Xorl Memory i32: 81 /6 id
{0,{0,0},0,1,{0x35,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 1344 Xorl _Eax i32: 35 id
{1,{102,0},0,2,{0xf,0x57,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1345 Xorpd Xmm Xmm: 66 0F 57 /r
{1,{102,0},0,2,{0xf,0x57,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1346 Xorpd Xmm Memory: 66 0F 57 /r
{0,{0,0},0,2,{0xf,0x57,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1347 Xorps Xmm Xmm: 0F 57 /r
{0,{0,0},0,2,{0xf,0x57,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1348 Xorps Xmm Memory: 0F 57 /r
{0,{0,0},1,1,{0x33,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1349 Xorq Gpr64 Gpr64: REX.W+ 33 /r
{0,{0,0},1,1,{0x33,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1350 Xorq Gpr64 Memory: REX.W+ 33 /r
{0,{0,0},1,1,{0x31,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1351 Xorq Memory Gpr64: REX.W+ 31 /r
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 1352 Xorq Gpr64 i8: REX.W+ 83 /6 ib
{0,{0,0},1,1,{0x83,0x0,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 1353 Xorq Memory i8: REX.W+ 83 /6 ib
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,6,{2,4,0},{0,4,0},{0,0,0}}, // 1354 Xorq Gpr64 i32: REX.W+ 81 /6 id
{0,{0,0},1,1,{0x81,0x0,0x0,0x0},0,6,{2,4,0},{0,4,0},{0,0,0}}, // 1355 Xorq Memory i32: REX.W+ 81 /6 id
{0,{0,0},1,1,{0x35,0x0,0x0,0x0},0,-1,{0,4,0},{0,4,0},{0,0,0}}, // 1356 Xorq _Rax i32: REX.W+ 35 id
{1,{102,0},0,1,{0x33,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1357 Xorw Gpr16 Gpr16: 66 33 /r
{1,{102,0},0,1,{0x33,0x0,0x0,0x0},0,8,{1,2,0},{0,0,0},{0,0,0}}, // 1358 Xorw Gpr16 Memory: 66 33 /r
{1,{102,0},0,1,{0x31,0x0,0x0,0x0},0,8,{2,1,0},{0,0,0},{0,0,0}}, // 1359 Xorw Memory Gpr16: 66 31 /r
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 1360 Xorw Gpr16 i8: 66 83 /6 ib
{1,{102,0},0,1,{0x83,0x0,0x0,0x0},0,6,{2,4,0},{0,1,0},{0,0,0}}, // 1361 Xorw Memory i8: 66 83 /6 ib
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,6,{2,4,0},{0,2,0},{0,0,0}}, // 1362 Xorw Gpr16 i16: 66 81 /6 iw
{1,{102,0},0,1,{0x81,0x0,0x0,0x0},0,6,{2,4,0},{0,2,0},{0,0,0}}, // 1363 Xorw Memory i16: 66 81 /6 iw
{1,{102,0},0,1,{0x35,0x0,0x0,0x0},0,-1,{0,4,0},{0,2,0},{0,0,0}}, // 1364 Xorw _Ax i16: 66 35 iw
{0,{0,0},0,3,{0xf,0x1,0xd1,0x0},0,-1,{0,0,0},{0,0,0},{0,0,0}}, // 1365 Xsetbv : 0F 01 D1
