//! Bindings of the symbolic-execution interface.
#![allow(dead_code)]
use std::ffi::c_char;
extern "C" {
    fn symx_int(bits: u32) -> u64;
    fn symx_bytes(p: *mut u8, n: usize);
    fn symx_choose(n: u32) -> u32;
    fn symx_assume(c: i32);
    fn symx_assert(c: i32, m: *const c_char);
    fn symx_reach(id: u64);
    fn symx_observe(id: u64, v: u64);
    fn symx_panic_ok(on: u32);
    fn symx_concretize(v: u64) -> u64;
    fn symx_print_val(v: u64);
}
pub fn int(bits: u32) -> u64 { unsafe { symx_int(bits) } }
pub fn u8() -> u8 { int(8) as u8 }
pub fn u64() -> u64 { int(64) }
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; unsafe { symx_bytes(v.as_mut_ptr(), n) }; v }
/// any number below n: a symbolic value, which the code that looks at it branches on
pub fn choose(n: usize) -> usize { let v = int(8) as usize; assume(v < n); v }
pub fn assume(c: bool) { unsafe { symx_assume(c as i32) } }
pub fn check(c: bool, m: &'static std::ffi::CStr) { unsafe { symx_assert(c as i32, m.as_ptr()) } }
pub fn reach(id: u64) { unsafe { symx_reach(id) } }
pub fn observe(id: u64, v: u64) { unsafe { symx_observe(id, v) } }
pub fn panic_ok(on: bool) { unsafe { symx_panic_ok(on as u32) } }
pub fn concretize(v: u64) -> u64 { unsafe { symx_concretize(v) } }
pub fn val(v: u64) { unsafe { symx_print_val(v) } }
/// as choose, split into one path per feasible value at once
pub fn pick(n: usize) -> usize { let v = choose(n); concretize(v as u64) as usize }
