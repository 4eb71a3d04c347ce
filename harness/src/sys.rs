//! Stand-ins for the system calls behind reading a file. The executor sends every call of `open64`, `read`, … to them
//! (the standard library's own code runs above); the native replay does so for the same descriptor.
//! Script: size reported for the file (0 right, 1 zero, 2 too small, 3 too large, 4 no statx, 5 a pipe), the number of
//! the read that fails, errno of `open`, and how many reads may be short or interrupted (chosen by `zs_choose`).
use std::os::raw::{c_char, c_int, c_void};
extern "C" { fn zs_choose(n: usize) -> usize; }
pub const PATH: &str = "/zs/image.jpg";
pub const FD: c_int = 1000;
pub struct Sys { pub data: Vec<u8>, pub pos: usize, pub open: bool, pub size: i64, pub fail_at: i64, pub fail_errno: i32, pub open_errno: i32, pub free: usize, pub reads: i64, pub opened: usize, pub closed: usize }
pub static mut SYS: Option<Sys> = None;
pub static mut ERRNO: c_int = 0;
#[allow(static_mut_refs)]
pub fn sys() -> Option<&'static mut Sys> { unsafe { SYS.as_mut() } }
fn err(e: c_int) -> c_int { unsafe { *zs_sys_errno() = e; } -1 }
#[no_mangle] pub extern "C" fn zs_sys_errno() -> *mut c_int { std::ptr::addr_of_mut!(ERRNO) }
#[no_mangle] pub unsafe extern "C" fn zs_sys_is_path(p: *const c_char) -> bool {
    let p = p as *const u8;
    for (i, b) in PATH.bytes().chain([0]).enumerate() { if *p.add(i) != b { return false; } }
    sys().is_some()
}
#[no_mangle] pub unsafe extern "C" fn zs_sys_open64(p: *const c_char, _flags: c_int, _mode: c_int) -> c_int {
    if !zs_sys_is_path(p) { return err(2); }
    let s = sys().unwrap();
    if s.open_errno == 4 { s.open_errno = 0; return err(4); } // interrupted once
    if s.open_errno != 0 { return err(s.open_errno); }
    s.open = true; s.pos = 0; s.opened += 1;
    FD
}
fn size(s: &Sys) -> Option<u64> { let n = s.data.len() as u64; match s.size { 0 | 4 => Some(n), 1 | 5 => Some(0), 2 => Some(n / 2), 3 => Some(n + 5000), _ => None } }
#[no_mangle] pub unsafe extern "C" fn zs_sys_statx(fd: c_int, p: *const c_char, _f: c_int, _m: c_int, b: *mut c_void) -> c_int {
    if fd == -100 && !zs_sys_is_path(p) { return err(2); }
    let Some(s) = sys().filter(|s| fd == -100 || fd == FD && s.open) else { return err(38) };
    if s.size == 4 { return err(38); }
    let Some(n) = size(s) else { return err(38) };
    std::ptr::write_bytes(b as *mut u8, 0, 256);
    (b as *mut u32).write_unaligned(0x7ff);
    ((b as usize + 28) as *mut u16).write_unaligned(0o100644);
    ((b as usize + 40) as *mut u64).write_unaligned(n);
    0
}
#[no_mangle] pub unsafe extern "C" fn zs_sys_stat64(p: *const c_char, b: *mut c_void) -> c_int { if zs_sys_is_path(p) { stat(sys().unwrap(), b) } else { err(2) } }
#[no_mangle] pub unsafe extern "C" fn zs_sys_fstat64(fd: c_int, b: *mut c_void) -> c_int {
    let Some(s) = sys().filter(|s| fd == FD && s.open) else { return err(9) };
    stat(s, b)
}
unsafe fn stat(s: &Sys, b: *mut c_void) -> c_int {
    let Some(n) = size(s) else { return err(5) };
    std::ptr::write_bytes(b as *mut u8, 0, 144);
    ((b as usize + 24) as *mut u32).write_unaligned(0o100644);
    ((b as usize + 48) as *mut u64).write_unaligned(n);
    0
}
#[no_mangle] pub unsafe extern "C" fn zs_sys_read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    let Some(s) = sys().filter(|s| fd == FD && s.open) else { return err(9) as isize };
    let at = s.reads; s.reads += 1;
    if at == s.fail_at { return err(s.fail_errno) as isize; }
    let mut m = n.min(s.data.len() - s.pos);
    if s.free > 0 && m > 1 {
        s.free -= 1;
        match zs_choose(5) { 1 => m = 1, 2 => m /= 2, 3 => m -= 1, 4 => return err(4) as isize, _ => {} }
    }
    std::ptr::copy_nonoverlapping(s.data.as_ptr().add(s.pos), b as *mut u8, m);
    s.pos += m;
    m as isize
}
#[no_mangle] pub unsafe extern "C" fn zs_sys_lseek64(fd: c_int, o: i64, w: c_int) -> i64 {
    let Some(s) = sys().filter(|s| fd == FD && s.open) else { return i64::from(err(9)) };
    if s.size == 5 { return i64::from(err(29)); } // a pipe
    let t = match w { 0 => o, 1 => s.pos as i64 + o, 2 => s.data.len() as i64 + o, _ => return i64::from(err(22)) };
    if t < 0 || t > s.data.len() as i64 { return i64::from(err(22)); }
    s.pos = t as usize;
    t
}
#[no_mangle] pub unsafe extern "C" fn zs_sys_close(fd: c_int) -> c_int { if let Some(s) = sys().filter(|s| fd == FD && s.open) { s.open = false; s.closed += 1; } 0 }
use crate::img::*;
use crate::more::progdef;
use crate::prog::progressive;
use crate::{cs, zs};
use zune_jpeg::Decoder;
fn p(i: usize) -> usize { zs::param(i) as usize }
/// a file against its bytes: as h_baseline, and 24=progressive 25=content (0 image, 1 its first 26 bytes, 2 SOI and 26 symbolic bytes,
/// 3 the image after a segment of 26 bytes, 4 nothing) 27=path (0 the file, 1 no such file, 2 not a path) 28=reported size 29=failing read + 1
/// 30=errno of open 22=errno of the failing read 21=number of reads that may be short 20=what the path held before
#[no_mangle]
pub extern "C" fn h_file() {
    let pl = crate::props::plan();
    let img = if p(24) != 0 { progressive(&pl, &progdef(1)).data } else { baseline(&pl).0 };
    let n = p(26);
    let data = match p(25) {
        0 => img,
        1 => img[..n.min(img.len())].to_vec(),
        2 => { let mut v = vec![0xff, 0xd8]; v.resize(2 + n, 0); zs::bytes(&mut v[2..], cs!("any")); v }
        3 => { let mut v = img[..2].to_vec(); v.extend([0xff, 0xe5, (n >> 8) as u8, n as u8]); v.extend((2..n).map(|i| (i * 7) as u8)); v.extend(&img[2..]); v }
        _ => vec![],
    };
    let mut d = Decoder::new_with_options(opts(p(5) as i64, p(6) != 0));
    let mut e = Decoder::new_with_options(opts(p(5) as i64, p(6) != 0));
    if p(20) != 0 { // the same path held another image before
        let mut o = pl.clone();
        o.dri = 1;
        if p(20) == 2 { o.w += 8; }
        if p(20) == 4 { o.dri = pl.dri; o.q = pl.q.wrapping_add(1); }
        let mut v = baseline(&o).0;
        if p(20) == 3 { v.truncate(60); }
        unsafe { SYS = Some(Sys { data: v.clone(), pos: 0, open: false, size: p(28) as i64, fail_at: -1, fail_errno: 0, open_errno: 0, free: 0, reads: 0, opened: 0, closed: 0 }) };
        let _ = d.decode_file(PATH);
        let _ = e.decode_buffer(&v);
    }
    unsafe { SYS = Some(Sys { data: data.clone(), pos: 0, open: false, size: p(28) as i64, fail_at: p(29) as i64 - 1, fail_errno: p(22) as i32, open_errno: p(30) as i32, free: p(21), reads: 0, opened: 0, closed: 0 }) };
    let r = match p(27) { 0 => d.decode_file(PATH), 1 => d.decode_file("/zs/missing.jpg"), _ => d.decode_file("/zs/a\0b.jpg") };
    let s = sys().unwrap();
    zs::check(s.opened == s.closed, cs!("the file is closed again"));
    if p(27) != 0 || p(30) != 0 && p(30) != 4 || p(29) != 0 && s.reads >= p(29) as i64 {
        zs::check(r.is_err(), cs!("a file that cannot be read is reported as an error"));
        zs::cover(cs!("failed"));
        return;
    }
    match (r, e.decode_buffer(&data)) {
        (Ok(a), Ok(b)) => {
            zs::check(a.len() == b.len() && d.width() == e.width() && d.height() == e.height(), cs!("the file and its bytes give the same size"));
            for i in 0..a.len() { zs::near(a[i] as i32, b[i] as i32, 0, cs!("the file and its bytes give the same pixels")); }
            zs::cover(cs!("decoded"));
        }
        (Err(a), Err(b)) => { zs::check(std::mem::discriminant(&a) == std::mem::discriminant(&b), cs!("the file and its bytes give the same error")); zs::cover(cs!("rejected")); }
        _ => zs::check(false, cs!("decoding a file and decoding its bytes have the same outcome")),
    }
}
