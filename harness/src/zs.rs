//! Interface to the symbolic executor (the replay binary implements the same functions natively).
extern "C" {
    fn zs_make(p: *mut u8, n: usize, elem: usize, name: *const u8);
    fn zs_assume(c: i32);
    fn zs_assert(c: i32, msg: *const u8);
    fn zs_near(a: i32, b: i32, tol: i64, msg: *const u8);
    fn zs_cover(id: *const u8);
    fn zs_param(i: usize) -> i64;
    fn zs_log(s: *const u8, v: i64);
    fn zs_conc(v: u64) -> u64;
    fn zs_issym(v: u64) -> u64;
    fn zs_job(phase: usize, id: usize);
}
#[macro_export]
macro_rules! cs { ($s:expr) => { concat!($s, "\0").as_ptr() }; }
pub fn bytes(b: &mut [u8], name: *const u8) { unsafe { zs_make(b.as_mut_ptr(), b.len(), 1, name) } }
pub fn u8v(init: u8, name: *const u8) -> u8 { let mut b = [init]; unsafe { zs_make(b.as_mut_ptr(), 1, 1, name) }; b[0] }
pub fn u16v(init: u16, name: *const u8) -> u16 { let mut b = [init]; unsafe { zs_make(b.as_mut_ptr() as *mut u8, 1, 2, name) }; b[0] }
/// symbolic value of n bits
pub fn bits(n: u32, init: u32, name: *const u8) -> u32 { if n == 0 { return 0; } (u16v(init as u16, name) as u32) & ((1u32 << n) - 1) }
pub fn assume(c: bool) { unsafe { zs_assume(c as i32) } }
pub fn check(c: bool, msg: *const u8) { unsafe { zs_assert(c as i32, msg) } }
pub fn near(a: i32, b: i32, tol: i64, msg: *const u8) { unsafe { zs_near(a, b, tol, msg) } }
pub fn cover(id: *const u8) { unsafe { zs_cover(id) } }
pub fn param(i: usize) -> i64 { unsafe { zs_param(i) } }
pub fn log(s: *const u8, v: i64) { unsafe { zs_log(s, v) } }
pub fn conc(v: u64) -> u64 { unsafe { zs_conc(v) } }
pub fn issym(v: u64) -> bool { unsafe { zs_issym(v) != 0 } }
pub fn job(phase: usize, id: usize) { unsafe { zs_job(phase, id) } }
