mod sx;
mod forms;
use forms::*;
use sx::*;
use xten::asm::*;

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Operand { code: u64, high: u64, imm: i64 }
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Mem { base: u64, code: u64, has_index: u64, index: u64, scale: u64, disp: i64 }
extern "C" {
    fn x86_forms() -> u64;
    fn x86_impossible(k: u64, o: *const Operand, is_mem: u64, m: *const Mem) -> u64;
    fn x86_wrong(k: u64, b: *const u8, n: u64, o: *const Operand, is_mem: u64, m: *const Mem) -> u64;
}

/// the operands an instruction is built from: numbers of registers, one address, immediates
pub struct Ops { r: [u8; 3], mem: Memory, imm: [i64; 3] }
static G64: [Gpr64; 16] = [Rax, Rcx, Rdx, Rbx, Rsp, Rbp, Rsi, Rdi, R8, R9, R10, R11, R12, R13, R14, R15];
static G32: [Gpr32; 16] = [Eax, Ecx, Edx, Ebx, Esp, Ebp, Esi, Edi, R8D, R9D, R10D, R11D, R12D, R13D, R14D, R15D];
static G16: [Gpr16; 16] = [Ax, Cx, Dx, Bx, Sp, Bp, Si, Di, R8W, R9W, R10W, R11W, R12W, R13W, R14W, R15W];
static G8: [Gpr8; 20] = [Al, Cl, Dl, Bl, Spl, Bpl, Sil, Dil, R8B, R9B, R10B, R11B, R12B, R13B, R14B, R15B, Ah, Ch, Dh, Bh];
static X: [Xmm; 16] = [Xmm0, Xmm1, Xmm2, Xmm3, Xmm4, Xmm5, Xmm6, Xmm7, Xmm8, Xmm9, Xmm10, Xmm11, Xmm12, Xmm13, Xmm14, Xmm15];
impl Ops {
    fn g64(&self, i: usize) -> Gpr64 { G64[self.r[i] as usize] }
    fn g32(&self, i: usize) -> Gpr32 { G32[self.r[i] as usize] }
    fn g16(&self, i: usize) -> Gpr16 { G16[self.r[i] as usize] }
    fn g8(&self, i: usize) -> Gpr8 { G8[self.r[i] as usize] }
    fn xmm(&self, i: usize) -> Xmm { X[self.r[i] as usize] }
}

/// every kind of address, with any registers, scale and displacement
#[inline(never)]
fn address(shape: usize, base: usize, index: usize, scale: usize, disp: i32, m: &mut Mem) -> Memory {
    let s = [1u8, 2, 4, 8][scale];
    let d8 = disp as i8;
    *m = Mem { base: 0, code: 0, has_index: 0, index: 0, scale: 1, disp: 0 };
    if shape >= 4 { m.base = 2; m.code = base as u64; } else if shape >= 2 { m.base = 1; }
    if [1, 7, 8, 9].contains(&shape) { m.has_index = 1; m.index = index as u64; m.scale = s as u64; }
    m.disp = match shape { 0 | 1 | 3 | 6 | 9 => disp as i64, 5 | 8 => d8 as i64, _ => 0 };
    let (b, x) = (G64[base], G64[index]);
    match shape {
        0 => memory(disp),
        1 => memory(disp + x * s),
        2 => memory(Rip),
        3 => memory(Rip + disp),
        4 => memory(b),
        5 => memory(b + d8),
        6 => memory(b + disp),
        7 => memory(b + x * s),
        8 => memory(b + d8 + x * s),
        _ => memory(b + disp + x * s),
    }
}

/// forms from..to with any operands; shapes of addresses are those whose bit is set
#[no_mangle]
pub extern "C" fn h_inst(from: u64, to: u64, shapes: u64) {
    let k = from as usize + pick((to - from) as usize);
    let mut o = [Operand::default(); 3];
    let mut r = [0u8; 3];
    let mut m = Mem::default();
    let mut mem = memory(Rip);
    let mut is_mem = 0;
    for i in 0..3 {
        match KINDS[k][i] {
            1 => { let c = choose(16); o[i].code = c as u64; r[i] = c as u8; }
            2 => { let c = choose(20); o[i].code = if c >= 16 { c as u64 - 12 } else { c as u64 }; o[i].high = (c >= 16) as u64; r[i] = c as u8; }
            3 => {
                let s = pick(10);
                assume(shapes >> s & 1 == 1);
                let disp = int(32) as i32;
                if s == 0 { assume(disp >= 0); }
                let (b, x) = (choose(16), choose(16));
                assume(x != 4);
                mem = address(s, b, x, choose(4), disp, &mut m);
                is_mem = 1;
            }
            4 => { o[i].imm = int(64) as i64; }
            _ => {}
        }
    }
    for i in 0..3 { if KINDS[k][i] == 4 { let n = imm_size(k, i); assume(o[i].imm << (64 - 8 * n) >> (64 - 8 * n) == o[i].imm); } }
    let ops = Ops { r, mem, imm: [o[0].imm, o[1].imm, o[2].imm] };
    let mut b = Vec::with_capacity(32);
    let bad = unsafe { x86_impossible(k as u64, o.as_ptr(), is_mem, &m) } != 0;
    panic_ok(bad);
    FORMS[k](&ops, &mut b);
    panic_ok(false);
    check(!bad, c"an instruction that has no encoding is refused");
    let e = unsafe { x86_wrong(k as u64, b.as_ptr(), b.len() as u64, o.as_ptr(), is_mem, &m) };
    check(e == 0, c"the bytes are the instruction with these operands");
    observe(1, b.len() as u64);
    for x in &b { observe(2, *x as u64); }
    reach(1000 + k as u64);
}

fn imm_size(k: usize, i: usize) -> u32 { IMMS[k][i] as u32 }

/// one example of each form, in hexadecimal
fn dump() {
    for k in 0..FORMS.len() {
        let m = if k % 2 == 0 { memory(Rbx + 5i8) } else { memory(R9 + 300i32 + R10 * 4u8) };
        let o = Ops { r: if k % 3 == 0 { [1, 2, 3] } else { [9, 2, 3] }, mem: m, imm: [17, 18, 19] };
        let mut b = vec![];
        FORMS[k](&o, &mut b);
        println!("{}", b.iter().map(|x| format!("0x{:02x}", x)).collect::<Vec<_>>().join(" "));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i + 2).map(|x| x.parse().unwrap()).unwrap_or(0u64);
    match a[1].as_str() {
        "h_inst" => h_inst(g(0), g(1), g(2)),
        "count" => println!("{}", unsafe { x86_forms() }),
        "dump" => dump(),
        x => { eprintln!("unknown entry {}", x); std::process::exit(97); }
    }
}
