//! Coefficients and quantisation values as large as the format can express, for the builds with overflow checks.
use crate::img::opts;
use crate::jw::{Huff, Jw};
use crate::{cs, zs};
use zune_jpeg::Decoder;
fn p(i: usize) -> usize { zs::param(i) as usize }
fn tables() -> (Huff, Huff) {
    let dc: Vec<u8> = (0..16).collect();
    let mut ac: Vec<u8> = vec![0];
    for r in [0u8, 1, 3, 15] { for s in 1..16u8 { ac.push(r << 4 | s); } }
    for r in 1..16u8 { ac.push(r << 4); }
    (Huff::flat(5, &dc), Huff::flat(8, &ac))
}
fn coeff(j: &mut Jw, h: &Huff, run: u8, s: u8) { j.sym(h, run << 4 | s); let m = zs::bits(s as u32, 0, cs!("mag")); j.put(m, s as u32); }
fn some(j: &mut Jw, n: usize) { for _ in 0..n { let m = zs::bits(1, 0, cs!("bit")); j.put(m, 1); } }
/// -p 0=w 1=h 2=components 5=colour 6=unsafe 16: 0 baseline 1 progressive 17=al of the first scans 18=DC category 19=number of AC coefficients (7: one at the end) 20=AC category
/// 21=quantiser (0: symbolic) 22=al of the refinement scans 23=symbolic bits of a refinement 24: shape of the AC refinement 25: compare vector and portable code
#[no_mangle]
pub extern "C" fn h_extreme() {
    let (w, h, n, prog) = (p(0), p(1), p(2), p(16) != 0);
    let blocks = (w + 7) / 8 * ((h + 7) / 8);
    let mut q = [if p(21) == 0 { 1 } else { p(21) as u8 }; 64];
    if p(21) == 0 { zs::bytes(&mut q, cs!("quant")); }
    let mut j = Jw::new();
    j.dqt(0, &q);
    let comps: Vec<(u8, u8, u8, u8)> = (0..n).map(|c| (c as u8 + 1, 1, 1, 0)).collect();
    j.sof(if prog { 0xc2 } else { 0xc0 }, w as u16, h as u16, &comps);
    let (dc, ac) = tables();
    j.dht(0, 0, &dc);
    j.dht(1, 0, &ac);
    let all: Vec<(u8, u8)> = (0..n).map(|c| (c as u8 + 1, 0)).collect();
    let (s, cat) = (p(18) as u8, p(20) as u8);
    let acs = |j: &mut Jw| {
        if p(19) == 7 { for _ in 0..3 { j.sym(&ac, 0xf0); } coeff(j, &ac, 3, cat); coeff(j, &ac, 1, cat); coeff(j, &ac, 1, cat); return 57; }
        for i in 0..p(19) { coeff(j, &ac, if i % 3 == 2 { 3 } else { 0 }, cat); }
        0
    };
    if !prog {
        j.sos(&all, 0, 63, 0, 0);
        for b in 0..blocks { for _ in 0..n { coeff(&mut j, &dc, 0, s); if b == 0 { acs(&mut j); } j.sym(&ac, 0); } }
        j.flush();
    } else {
        let (al, al2, k) = (p(17) as u8, p(22) as u8, p(23));
        j.sos(&all, 0, 0, 0, al);
        for _ in 0..blocks * n { coeff(&mut j, &dc, 0, s); }
        j.flush();
        j.sos(&all[..1], 1, 63, 0, al);
        for _ in 0..blocks { acs(&mut j); j.sym(&ac, 0); }
        j.flush();
        j.sos(&all, 0, 0, al2 + 1, al2);
        some(&mut j, blocks * n);
        j.flush();
        j.sos(&all[..1], 1, 63, al2 + 1, al2);
        for b in 0..blocks {
            match p(24) {
                1 => { j.sym(&ac, 1); some(&mut j, 1 + k); j.sym(&ac, 0); some(&mut j, k); }
                2 => { j.sym(&ac, 0xf0); some(&mut j, k); j.sym(&ac, 0); some(&mut j, k); }
                3 => { if b == 0 { j.sym(&ac, 0xe0); some(&mut j, 14); } some(&mut j, k); }
                _ => { j.sym(&ac, 0); some(&mut j, k); }
            }
        }
        j.flush();
    }
    j.eoi();
    let run = |u: bool| Decoder::new_with_options(opts(p(5) as i64, u)).decode_buffer(&j.v);
    match run(p(6) != 0) {
        Ok(o) => {
            zs::check(o.len() == w * h * if n == 1 || p(5) == 1 { 1 } else if p(5) == 3 || p(5) == 4 { 4 } else { 3 }, cs!("length of the decoded buffer is width*height*components"));
            zs::cover(cs!("decoded"));
            if p(25) != 0 {
                match run(p(6) == 0) {
                    Ok(x) => for i in 0..o.len() { zs::near(o[i] as i32, x[i] as i32, 0, cs!("vector and portable code give the same pixels")); },
                    Err(_) => zs::check(false, cs!("vector and portable code both decode the image")),
                }
            }
        }
        Err(_) => zs::cover(cs!("err")),
    }
}
