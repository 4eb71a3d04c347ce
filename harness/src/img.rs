//! Images with concrete structure and symbolic coefficient data, and the comparison with the reference.
use crate::gold::{self, Block, Plane};
use crate::jw::{self, extend, Huff, Jw, ZZ};
use crate::{cs, zs};
use zune_jpeg::{ColorSpace, Decoder, ZuneJpegOptions};

#[derive(Clone)]
pub struct Plan {
    pub w: usize, pub h: usize, pub ncomp: usize, pub hs: usize, pub vs: usize,
    pub dri: usize,
    pub dc_s: u8,             // category of DC differences (0: no difference coded)
    pub ac: Vec<(u8, u8)>,    // (zigzag index, category)
    pub ac_every: usize,      // AC coefficients only in blocks whose number is a multiple of this (0: never)
    pub q: u8, pub symq: bool,
    pub tables: usize,        // 0 standard, 1 long codes (slow path), 2 short codes
    pub stuff: bool,          // symbolic bytes may need stuffing (one path per combination)
    pub fill: usize,          // fill bytes before restart markers and EOI
    pub sym_every: usize,     // symbolic magnitudes in blocks whose number is a multiple of this; others concrete
}
impl Plan {
    pub fn gray(w: usize, h: usize) -> Plan { Plan { w, h, ncomp: 1, hs: 1, vs: 1, dri: 0, dc_s: 8, ac: vec![], ac_every: 1, q: 1, symq: false, tables: 0, sym_every: 1, stuff: false, fill: 0 } }
    pub fn ycc(w: usize, h: usize, hs: usize, vs: usize) -> Plan { Plan { ncomp: 3, hs, vs, ..Plan::gray(w, h) } }
}
pub fn tables(kind: usize) -> (Huff, Huff) {
    match kind {
        1 => {
            let dc: Vec<u8> = (0..12).collect();
            (Huff::flat(12, &dc), Huff::flat(16, &jw::ac_std().vals))
        }
        2 => (Huff::flat(4, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]), Huff::flat(5, &[0, 0x01, 0x02, 0x03, 0x04, 0x05, 0x11, 0x12, 0x21, 0x22, 0xf0, 0x31, 0x32, 0x06, 0x07, 0x08, 0x0a, 0xf4, 0xc4, 0xe4, 0x94, 0x34, 0x64])),
        // the lengths of 0 and 2 with the values in other orders
        3 => { let (mut a, mut b) = (jw::dc_std().vals, jw::ac_std().vals); a.reverse(); b.reverse(); (Huff::new(jw::dc_std().bits, &a), Huff::new(jw::ac_std().bits, &b)) }
        4 => { let (a, b) = tables(2); let (mut x, mut y) = (a.vals, b.vals); x.reverse(); y.reverse(); (Huff::new(a.bits, &x), Huff::new(b.bits, &y)) }
        // the values of 0 (DC) with other lengths
        5 => { let a = jw::dc_std().vals; let mut y = jw::ac_std().vals; y.swap(0, 1); y.swap(3, 7); (Huff::new([0, 2, 2, 2, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0], &a), Huff::new(jw::ac_std().bits, &y)) }
        _ => (jw::dc_std(), jw::ac_std()),
    }
}
/// deterministic stand-in for magnitude bits that are not symbolic
fn pseudo(n: usize, s: u32) -> u32 { let x = (n as u32).wrapping_mul(2654435761).wrapping_add(0x9e3779b9); if s == 0 { 0 } else { (x >> 7) & ((1 << s) - 1) } }
/// magnitude bits
pub fn mag(s: u32, sym: bool, n: usize) -> u32 { if sym { zs::bits(s, pseudo(n, s), cs!("mag")) } else { pseudo(n, s) } }

pub struct Enc { pub j: Jw, pub planes: Vec<Plane>, pub dc: Huff, pub ac: Huff, pub mcux: usize, pub mcuy: usize, pub ends: Vec<usize> }
pub fn quant(p: &Plan, which: usize) -> [u8; 64] {
    let mut q = [0u8; 64];
    for i in 0..64 { q[i] = if p.q == 0 { (3 + (i * 7 + which * 5) % 11) as u8 } else { p.q }; }
    if p.symq { zs::bytes(&mut q, cs!("quant")); for i in 0..64 { zs::assume(q[i] != 0); } }
    q
}
pub fn frame(p: &Plan, sof: u8) -> Enc {
    let mut j = Jw::new();
    j.stuff = p.stuff;
    let (dc, ac) = tables(p.tables);
    let (hm, vm) = if p.ncomp == 1 { (1, 1) } else { (p.hs, p.vs) };
    let mcux = (p.w + 8 * hm - 1) / (8 * hm);
    let mcuy = (p.h + 8 * vm - 1) / (8 * vm);
    let q0 = quant(p, 0);
    let q1 = if p.ncomp == 1 { q0 } else { quant(p, 1) };
    j.dqt(0, &q0);
    if p.ncomp > 1 { j.dqt(1, &q1); }
    let mut comps: Vec<(u8, u8, u8, u8)> = vec![(1, p.hs as u8, p.vs as u8, 0)];
    if p.ncomp == 3 { comps.push((2, 1, 1, 1)); comps.push((3, 1, 1, 1)); }
    j.sof(sof, p.w as u16, p.h as u16, &comps);
    let mut planes = Vec::new();
    for c in 0..p.ncomp {
        let (h, v) = if c == 0 { (hm, vm) } else { (1, 1) };
        let qq = if c == 0 { &q0 } else { &q1 };
        let mut q = [0i32; 64];
        for i in 0..64 { q[i] = qq[i] as i32; }
        planes.push(Plane { h, v, bw: mcux * h, bh: mcuy * v, b: vec![Block { c: [0; 64], dc_only: true }; mcux * h * mcuy * v], q });
    }
    Enc { j, planes, dc, ac, mcux, mcuy, ends: vec![] }
}
pub fn baseline(p: &Plan) -> (Vec<u8>, Vec<Plane>) { let e = baseline_enc(p); (e.j.v, e.planes) }
pub fn baseline_enc(p: &Plan) -> Enc {
    let mut e = frame(p, 0xc0);
    let (dc, ac) = (e.dc.clone(), e.ac.clone());
    e.j.dht(0, 0, &dc);
    e.j.dht(1, 0, &ac);
    if p.dri != 0 { e.j.dri(p.dri as u16); }
    let mut sc = vec![(1u8, 0u8)];
    if p.ncomp == 3 { sc.push((2, 0)); sc.push((3, 0)); }
    e.j.sos(&sc, 0, 63, 0, 0);
    let mut pred = [0i32; 3];
    let mut n = 0;
    for my in 0..e.mcuy { for mx in 0..e.mcux {
        let m = my * e.mcux + mx;
        if p.dri != 0 && m != 0 && m % p.dri == 0 {
            e.j.flush();
            for _ in 0..p.fill { e.j.v.push(0xff); }
            e.j.marker(0xd0 + ((m / p.dri - 1) & 7) as u8);
            pred = [0; 3];
        }
        for c in 0..p.ncomp {
            let (ch, cv, bw) = (e.planes[c].h, e.planes[c].v, e.planes[c].bw);
            for v in 0..cv { for h in 0..ch {
                let (bx, by) = (mx * ch + h, my * cv + v);
                let sym = p.sym_every != 0 && n % p.sym_every == 0;
                let s = p.dc_s as u32;
                let mg = mag(s, sym, n);
                e.j.sym(&dc, p.dc_s);
                e.j.put(mg, s);
                pred[c] += extend(s, mg);
                let b = &mut e.planes[c].b[by * bw + bx];
                b.c[0] = pred[c];
                if p.ac_every != 0 && n % p.ac_every == 0 && !p.ac.is_empty() {
                    b.dc_only = false;
                    let mut last = 0;
                    for (i, &(k, s)) in p.ac.iter().enumerate() {
                        let mut run = k - last - 1;
                        while run > 15 { e.j.sym(&ac, 0xf0); run -= 16; }
                        let m = mag(s as u32, sym, n * 67 + i + 1);
                        e.j.sym(&ac, run << 4 | s);
                        e.j.put(m, s as u32);
                        b.c[ZZ[k as usize]] = extend(s as u32, m);
                        last = k;
                    }
                    if last != 63 { e.j.sym(&ac, 0); }
                } else { e.j.sym(&ac, 0); }
                let u = e.j.used();
                e.ends.push(u);
                n += 1;
            } }
        }
    } }
    e.j.flush();
    for _ in 0..p.fill { e.j.v.push(0xff); }
    e.j.eoi();
    e
}
pub fn cspace(n: i64) -> ColorSpace {
    match n { 1 => ColorSpace::GRAYSCALE, 2 => ColorSpace::YCbCr, 3 => ColorSpace::RGBA, 4 => ColorSpace::RGBX, _ => ColorSpace::RGB }
}
pub fn opts(cs: i64, uns: bool) -> ZuneJpegOptions { ZuneJpegOptions::new().set_out_colorspace(cspace(cs)).set_use_unsafe(uns) }
/// pixels the reference gives for colorspace code `cs` (the X byte of RGBX is -1: unspecified)
pub fn expected(planes: &[Plane], w: usize, h: usize, cs: i64) -> Vec<i32> {
    let cs = if planes.len() == 1 { 1 } else { cs };
    let n = if cs == 1 { 1 } else { 3 };
    let (pl, stride) = gold::upsampled(planes, n);
    let mut o = Vec::with_capacity(w * h * 4);
    for y in 0..h { for x in 0..w {
        let i = y * stride + x;
        match cs {
            1 => o.push(pl[0][i]),
            2 => { o.push(pl[0][i]); o.push(pl[1][i]); o.push(pl[2][i]); }
            _ => {
                let (r, g, b) = gold::rgb(pl[0][i], pl[1][i], pl[2][i]);
                o.push(r); o.push(g); o.push(b);
                if cs == 3 { o.push(255); }
                if cs == 4 { o.push(-1); }
            }
        }
    } }
    o
}
pub fn compare(out: &[u8], want: &[i32], tol: i64) {
    zs::check(out.len() == want.len(), cs!("length of the decoded buffer is width*height*components"));
    for i in 0..want.len() {
        if zs::issym(want[i] as u64) || want[i] >= 0 { zs::near(out[i] as i32, want[i], tol, cs!("decoded sample equals the reference reconstruction")); }
    }
}
pub fn decode_and_compare(data: &[u8], planes: &[Plane], w: usize, h: usize, csp: i64, uns: bool) {
    let want = expected(planes, w, h, csp); // first: schedules fork in the decoder
    let mut d = Decoder::new_with_options(opts(csp, uns));
    match d.decode_buffer(data) {
        Ok(o) => {
            zs::check(usize::from(d.width()) == w && usize::from(d.height()) == h, cs!("width() and height() report the frame header"));
            compare(&o, &want, 0);
            zs::cover(cs!("decoded"));
        }
        Err(_) => zs::check(false, cs!("valid image decodes")),
    }
}
