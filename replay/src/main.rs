//! Runs a harness entry natively with the concrete values of a solver model.
//! zreplay ENTRY MODEL [--cpu avx2|sse41|none] [-p i=v ...]
//! exit 0: ran to the end; 10: assertion failed; 11: panic; 13: model does not meet an assumption.
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::CStr;
use std::os::raw::c_char;
struct St { params: [i64; 32], model: HashMap<String, Vec<u64>>, occ: HashMap<String, usize> }
thread_local! { static ST: RefCell<Option<St>> = const { RefCell::new(None) }; }
fn with<R>(f: impl FnOnce(&mut St) -> R) -> R { ST.with(|s| f(s.borrow_mut().as_mut().unwrap())) }
fn name(p: *const u8) -> String { unsafe { CStr::from_ptr(p as *const c_char) }.to_string_lossy().into_owned() }
fn next(n: &str) -> Option<Vec<u64>> {
    with(|s| { let o = s.occ.entry(n.to_string()).or_insert(0); let k = format!("{}#{}", n, o); *o += 1; s.model.get(&k).cloned() })
}
#[no_mangle] pub extern "C" fn zs_make(p: *mut u8, n: usize, elem: usize, nm: *const u8) {
    if let Some(v) = next(&name(nm)) {
        for i in 0..n.min(v.len()) { for b in 0..elem { unsafe { *p.add(i * elem + b) = (v[i] >> (8 * b)) as u8 } } }
    }
}
#[no_mangle] pub extern "C" fn zs_assume(c: i32) { if c == 0 { println!("assumption not met"); std::process::exit(13) } }
#[no_mangle] pub extern "C" fn zs_assert(c: i32, m: *const u8) { if c == 0 { println!("ASSERTION FAILED: {}", name(m)); std::process::exit(10) } }
#[no_mangle] pub extern "C" fn zs_near(a: i32, b: i32, tol: i64, m: *const u8) {
    if (i64::from(a) - i64::from(b)).abs() > tol { println!("ASSERTION FAILED: {} (got {} want {})", name(m), a, b); std::process::exit(10) }
}
#[no_mangle] pub extern "C" fn zs_cover(id: *const u8) { println!("cover {}", name(id)); }
#[no_mangle] pub extern "C" fn zs_param(i: usize) -> i64 { with(|s| s.params[i]) }
#[no_mangle] pub extern "C" fn zs_log(n: *const u8, v: i64) { println!("log {} = {}", name(n), v); }
#[no_mangle] pub extern "C" fn zs_conc(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn zs_issym(_: u64) -> u64 { 0 }
#[no_mangle] pub extern "C" fn zs_choose(n: usize) -> usize { if n <= 1 { return 0; } next("choose").map_or(0, |v| v[0] as usize % n) }
#[no_mangle] pub extern "C" fn zs_job(_phase: usize, _id: usize) {}
/// make the processor look older than it is: clear bits of the standard library's feature cache
fn limit_cpu(kind: &str) -> bool {
    let has = |f: &str| match f { "avx2" => std::is_x86_feature_detected!("avx2"), "avx" => std::is_x86_feature_detected!("avx"), "ssse3" => std::is_x86_feature_detected!("ssse3"), "sse3" => std::is_x86_feature_detected!("sse3"), "sse4.2" => std::is_x86_feature_detected!("sse4.2"), _ => std::is_x86_feature_detected!("sse4.1") };
    let off: &[&str] = match kind { "none" => &["avx2", "avx", "sse4.2", "sse4.1", "ssse3", "sse3"], "sse41" => &["avx2", "avx", "sse4.2"], _ => return true };
    has("avx2");
    let exe = std::fs::read("/proc/self/exe").unwrap();
    let u = |o: usize, n: usize| -> u64 { let mut v = 0u64; for i in 0..n { v |= u64::from(exe[o + i]) << (8 * i) } v };
    let (shoff, shsz, shn) = (u(40, 8) as usize, u(58, 2) as usize, u(60, 2) as usize);
    let pie = u(16, 2) == 3;
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let me = std::fs::read_link("/proc/self/exe").unwrap();
    let line = maps.lines().find(|l| l.ends_with(me.to_str().unwrap())).or(maps.lines().next()).unwrap();
    let base = if pie { u64::from_str_radix(line.split('-').next().unwrap(), 16).unwrap() } else { 0 };
    let mut cells = Vec::new();
    for i in 0..shn {
        let s = shoff + i * shsz;
        if u(s + 4, 4) != 2 { continue; }
        let (off, sz, link) = (u(s + 24, 8) as usize, u(s + 32, 8) as usize, u(s + 40, 4) as usize);
        let stro = u(shoff + link * shsz + 24, 8) as usize;
        for k in 0..sz / 24 {
            let y = off + k * 24;
            let n = stro + u(y, 4) as usize;
            let e = exe[n..].iter().position(|c| *c == 0).unwrap();
            let nm = String::from_utf8_lossy(&exe[n..n + e]).into_owned();
            if nm.contains("std_detect") && nm.contains("CACHE") { cells.push((base + u(y + 8, 8), u(y + 16, 8))); }
        }
    }
    for f in off {
        'o: for (a, n) in &cells {
            for w in 0..n / 8 { for b in 0..63 {
                let p = (a + w * 8) as *mut u64;
                unsafe {
                    let old = p.read_volatile();
                    if old >> b & 1 == 0 || !has(f) { continue; }
                    p.write_volatile(old & !(1 << b));
                    if has(f) { p.write_volatile(old); } else { break 'o; }
                }
            } }
        }
    }
    off.iter().all(|f| !has(f))
}
// reading a file goes to the same stand-ins as in the executor; everything else to the kernel
use std::os::raw::{c_int, c_long, c_void};
extern "C" { fn syscall(n: c_long, ...) -> c_long; fn __errno_location() -> *mut c_int; }
fn fwd(r: i64) -> i64 { if r < 0 { unsafe { *__errno_location() = *zharness::sys::zs_sys_errno() } } r }
use zharness::sys::{self, FD};
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: c_int) -> c_int { if sys::sys().is_some() { fwd(sys::zs_sys_open64(p, f, m).into()) as c_int } else { syscall(257, -100i64, p, f, m) as c_int } }
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize { if fd == FD { fwd(sys::zs_sys_read(fd, b, n) as i64) as isize } else { syscall(0, fd, b, n) as isize } }
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int { if fd == FD { sys::zs_sys_close(fd) } else { syscall(3, fd) as c_int } }
#[no_mangle] pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, f: c_int, m: c_int, b: *mut c_void) -> c_int { if fd == FD || fd == -100 && sys::sys().is_some() { fwd(sys::zs_sys_statx(fd, p, f, m, b).into()) as c_int } else { syscall(332, fd, p, f, m, b) as c_int } }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut c_void) -> c_int { if fd == FD { fwd(sys::zs_sys_fstat64(fd, b).into()) as c_int } else { syscall(5, fd, b) as c_int } }
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut c_void) -> c_int { if sys::sys().is_some() { fwd(sys::zs_sys_stat64(p, b).into()) as c_int } else { syscall(4, p, b) as c_int } }
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 { if fd == FD { fwd(sys::zs_sys_lseek64(fd, o, w)) } else { syscall(8, fd, o, w) } }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut st = St { params: [0; 32], model: HashMap::new(), occ: HashMap::new() };
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
        let mut t = l.split_whitespace();
        if let Some(k) = t.next() { st.model.insert(k.to_string(), t.map(|x| x.parse().unwrap()).collect()); }
    }
    let mut cpu = "avx2".to_string();
    let mut i = 3;
    while i < a.len() {
        if a[i] == "-p" { let (k, v) = a[i + 1].split_once('=').unwrap(); st.params[k.parse::<usize>().unwrap()] = v.parse().unwrap(); }
        if a[i] == "--cpu" { cpu = a[i + 1].clone(); }
        i += 2;
    }
    if !limit_cpu(&cpu) { println!("cannot limit the processor to {}", cpu); std::process::exit(14); }
    ST.with(|s| *s.borrow_mut() = Some(st));
    let f = zharness::entries().iter().find(|e| e.0 == a[1]).expect("entry").1;
    match std::panic::catch_unwind(|| f()) { Ok(()) => println!("finished"), Err(_) => { println!("PANIC"); std::process::exit(11) } }
}
