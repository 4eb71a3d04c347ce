use crate::img::*;
use crate::prog::{progressive, Prog};
use crate::more::*;
use crate::ovf::h_extreme;
use crate::sys::h_file;
use crate::{cs, zs};
macro_rules! entries { ($($n:ident)*) => { pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*]; } }
fn p(i: usize) -> usize { zs::param(i) as usize }
/// baseline image (23: bit 0 stuffing, the rest number of fill bytes): -p 0=w 1=h 2=ncomp 3=hs 4=vs 5=cs 6=unsafe 7=dri 8=dc_s 9=acpattern 10=ac_every 11=q 12=symq 13=tables 14=sym_every 15=accat
pub fn plan() -> Plan {
    let s = p(15) as u8;
    let ac: Vec<(u8, u8)> = match p(9) {
        0 => vec![],
        1 => vec![(1, s), (2, s), (63, s)],
        2 => (1..64).map(|k| (k as u8, s)).collect(),
        3 => vec![(1, s), (5, s), (20, s), (40, s), (60, s)],
        4 => vec![(1, s), (8, s), (18, s)],
        k => vec![((k - 4) as u8, s)],
    };
    Plan { w: p(0), h: p(1), ncomp: p(2), hs: p(3), vs: p(4), dri: p(7), dc_s: p(8) as u8, ac, ac_every: p(10), q: p(11) as u8, symq: p(12) != 0, tables: p(13), sym_every: p(14), stuff: p(23) & 1 != 0, fill: p(23) >> 1 }
}
entries! { h_baseline h_prog h_dims h_sof h_sos h_tables h_any h_trunc h_reuse h_series h_pair h_opts h_segs h_color h_huff h_bits h_two h_file h_extreme }
#[no_mangle]
pub extern "C" fn h_baseline() {
    let pl = plan();
    let (data, planes) = baseline(&pl);
    decode_and_compare(&data, &planes, pl.w, pl.h, p(5) as i64, p(6) != 0);
}

/// progressive image: as h_baseline, and 16=script 17=dri before the second scan (0: unchanged, k+1) 18=segments between scans
/// 19=sig_every 20=corr 21=eobmax (0: none) 22=eobshift
pub fn progp() -> Prog {
    Prog { script: p(16), dri2: p(17).wrapping_sub(1), late: p(18), sig_every: p(19), corr: p(20), eobmax: if p(21) == 0 { 0x7fff } else { p(21) as u32 }, eobshift: p(22) }
}
#[no_mangle]
pub extern "C" fn h_prog() {
    let pl = plan();
    let r = progressive(&pl, &progp());
    decode_and_compare(&r.data, &r.planes, pl.w, pl.h, p(5) as i64, p(6) != 0);
}

/// two images decoded by two decoders in two threads: as h_baseline (16..22 as h_prog when 24 is set); the second image is progressive when 25 is set
#[no_mangle]
pub extern "C" fn h_two() {
    let pl = plan();
    let one = |pr: bool| if pr { let r = progressive(&pl, &progp()); (r.data, r.planes) } else { baseline(&pl) };
    let ims = [one(p(24) != 0), one(p(25) != 0)];
    let want = [expected(&ims[0].1, pl.w, pl.h, p(5) as i64), expected(&ims[1].1, pl.w, pl.h, p(5) as i64)];
    let (cs, uns) = (p(5) as i64, p(6) != 0);
    let go = move |im: &[u8]| zune_jpeg::Decoder::new_with_options(opts(cs, uns)).decode_buffer(im);
    let mut out = [None, None];
    if p(31) == 3 {
        std::thread::scope(|s| for (o, im) in out.iter_mut().zip(&ims) { s.spawn(move || *o = Some(go(&im.0))); });
    } else {
        for i in 0..2 { zs::job(0, i); }
        for i in 0..2 { two_job(i, &go, &ims[i].0, &mut out[i]); }
        zs::job(3, 0);
    }
    for (o, w) in out.iter().zip(&want) {
        match o { Some(Ok(o)) => compare(o, w, 0), _ => zs::check(false, cs!("valid image decodes")) }
    }
    zs::cover(cs!("decoded"));
}
#[inline(never)]
fn two_job<T>(i: usize, go: &dyn Fn(&[u8]) -> T, im: &[u8], out: &mut Option<T>) { zs::job(1, i); two_call(go, im, out); zs::job(2, i); }
#[inline(never)]
fn two_call<T>(go: &dyn Fn(&[u8]) -> T, im: &[u8], out: &mut Option<T>) { *out = Some(go(im)); }
