//! Entries about headers, robustness, reuse, options and segments.
use crate::gold;
use crate::img::*;
use crate::jw::{self, extend, Huff, Jw, ZZ};
use crate::prog::{progressive, Prog};
use crate::{cs, zs};
use std::num::NonZeroU32;
use zune_jpeg::{ColorSpace, Decoder, ZuneJpegOptions};
fn p(i: usize) -> usize { zs::param(i) as usize }
fn find(v: &[u8], m: u8, nth: usize) -> usize {
    let (mut i, mut n) = (2, 0);
    loop {
        if v[i + 1] == m { if n == nth { return i; } n += 1; }
        i += 2 + ((v[i + 2] as usize) << 8 | v[i + 3] as usize);
    }
}
fn symbytes(v: &mut [u8], at: usize, n: usize, name: *const u8) { zs::bytes(&mut v[at..at + n], name); }
fn small(ncomp: usize, hs: usize, vs: usize) -> Plan {
    let mut q = if ncomp == 1 { Plan::gray(8 * hs, 8 * vs) } else { Plan::ycc(8 * hs, 8 * vs, hs, vs) };
    q.hs = hs; q.vs = vs; q.dc_s = 2; q.sym_every = 0; q
}
pub fn progdef(script: usize) -> Prog { Prog { script, dri2: usize::MAX, late: 0, sig_every: 2, corr: 0, eobmax: 0x7fff, eobshift: 0 } }
/// every Ok result has the promised size
fn sized(d: &Decoder, o: &[u8]) {
    let n = d.get_output_colorspace().num_components();
    zs::check(o.len() == usize::from(d.width()) * usize::from(d.height()) * n, cs!("length of the decoded buffer is width*height*components"));
    zs::cover(cs!("ok"));
}

/// image dimensions and limits: -p 2=ncomp 16=progressive 17: 0 any limits, 1 default limits
#[no_mangle]
pub extern "C" fn h_dims() {
    let pl = small(p(2), 1, 1);
    let mut v = if p(16) != 0 { progressive(&pl, &progdef(0)).data } else { baseline(&pl).0 };
    let at = find(&v, if p(16) != 0 { 0xc2 } else { 0xc0 }, 0);
    symbytes(&mut v, at + 5, 4, cs!("dims"));
    let h = (v[at + 5] as u16) << 8 | v[at + 6] as u16;
    let w = (v[at + 7] as u16) << 8 | v[at + 8] as u16;
    let (mut mw, mut mh) = (16384, 16384);
    let mut o = opts(0, true);
    if p(17) == 0 {
        mw = zs::u16v(100, cs!("maxw"));
        mh = zs::u16v(200, cs!("maxh"));
        o = o.set_max_width(mw).set_max_height(mh);
        zs::check(o.get_max_width() == mw && o.get_max_height() == mh, cs!("limit setters and getters agree"));
    }
    let good = w != 0 && h != 0 && w <= mw && h <= mh;
    let mut d = Decoder::new_with_options(o);
    match d.read_headers(&v) {
        Ok(()) => {
            zs::cover(cs!("accepted"));
            zs::check(good, cs!("zero dimensions and dimensions beyond the limits are rejected"));
            zs::check(d.width() == w && d.height() == h, cs!("width() and height() report the frame header"));
            match d.info() {
                Some(i) => zs::check(i.width == w && i.height == h && i.components == pl.ncomp as u8, cs!("info() reports the frame header")),
                None => zs::check(false, cs!("info() is available after the headers were read")),
            }
            zs::check((d.get_output_colorspace() == ColorSpace::GRAYSCALE) == (pl.ncomp == 1), cs!("output colorspace after reading the headers"));
        }
        Err(_) => { zs::cover(cs!("rejected")); zs::check(!good, cs!("dimensions within the limits are accepted")) }
    }
    // the full decoder refuses them too (kept to refused dimensions: accepted ones are decoded by other entries)
    if p(18) != 0 {
        zs::assume(!good);
        let mut d = Decoder::new_with_options(o);
        zs::check(d.decode_buffer(&v).is_err(), cs!("zero dimensions and dimensions beyond the limits are rejected"));
    }
}
/// frame header fields: -p 2=ncomp 3=hs 4=vs 16=progressive 20=field
#[no_mangle]
pub extern "C" fn h_sof() {
    let prog = p(16) != 0;
    let n = p(2);
    let pl = small(n, p(3), p(4));
    let mut v = if prog { progressive(&pl, &progdef(0)).data } else { baseline(&pl).0 };
    let at = find(&v, if prog { 0xc2 } else { 0xc0 }, 0);
    let cmp = at + 10;
    let (mut must_fail, mut must_pass) = (false, false);
    match p(20) {
        0 => {
            symbytes(&mut v, at + 2, 2, cs!("length"));
            let len = (v[at + 2] as usize) << 8 | v[at + 3] as usize;
            must_pass = len == 8 + 3 * n; must_fail = !must_pass;
        }
        1 => { symbytes(&mut v, at + 4, 1, cs!("precision")); must_pass = v[at + 4] == 8; must_fail = !must_pass; }
        2 => { symbytes(&mut v, at + 9, 1, cs!("ncomp")); must_pass = v[at + 9] as usize == n; must_fail = !must_pass; }
        3 => {
            for i in 0..n { symbytes(&mut v, cmp + 3 * i, 1, cs!("id")); }
            must_pass = v[cmp] == 1;
            must_fail = v[cmp] == 0 || v[cmp] > 3;
            for i in 1..n {
                must_pass &= v[cmp + 3 * i] as usize == i + 1;
                for j in 0..i { must_fail |= v[cmp + 3 * i] == v[cmp + 3 * j]; }
                must_fail |= v[cmp + 3 * i] == 0 || v[cmp + 3 * i] > 3;
            }
        }
        k @ 4..=6 => {
            // sampling factors of component k-4
            let i = cmp + 3 * (k - 4) + 1;
            symbytes(&mut v, i, 1, cs!("sampling"));
            v[i] = zs::conc(v[i] as u64) as u8;
            let (h, vv) = (v[i] >> 4, v[i] & 15);
            must_fail = h == 0 || h > 4 || vv == 0 || vv > 4;
            if k > 4 { must_pass = h == 1 && vv == 1; must_fail |= !must_pass; } else { must_pass = (h == 1 || h == 2) && (vv == 1 || vv == 2); if n == 3 { must_fail |= !must_pass; } }
        }
        k => {
            // quantisation table selector of component k-7
            let i = cmp + 3 * (k - 7) + 2;
            symbytes(&mut v, i, 1, cs!("tq"));
            must_pass = v[i] == 0 || (n == 3 && v[i] == 1);
            must_fail = !must_pass;
        }
    }
    let mut d = Decoder::new_with_options(opts(0, p(6) != 0));
    match d.decode_buffer(&v) {
        Ok(o) => { zs::cover(cs!("accepted")); zs::check(!must_fail, cs!("an invalid or unsupported frame header is rejected")); sized(&d, &o); }
        Err(_) => { zs::cover(cs!("rejected")); zs::check(!must_pass, cs!("a valid frame header is accepted")) }
    }
}
/// scan header fields: -p 2=ncomp 3 4 16=progressive 19=which scan 20=field
#[no_mangle]
pub extern "C" fn h_sos() {
    let prog = p(16) != 0;
    let n = p(2);
    let pl = small(n, p(3), p(4));
    let script = p(18);
    let (mut v, planes) = if prog { let r = progressive(&pl, &progdef(script)); (r.data, r.planes) } else { baseline(&pl) };
    // scans are located by their marker: entropy coded data contains no FF DA
    let mut at = 0; let mut left = p(19) + 1;
    for i in 0..v.len() - 1 { if v[i] == 0xff && v[i + 1] == 0xda { left -= 1; if left == 0 { at = i; break; } } }
    let ns = v[at + 4] as usize;
    let tail = at + 5 + 2 * ns;
    let (mut must_fail, must_pass);
    match p(20) {
        0 => { symbytes(&mut v, at + 2, 2, cs!("length")); let l = (v[at + 2] as usize) << 8 | v[at + 3] as usize; must_pass = l == 6 + 2 * ns; must_fail = !must_pass; }
        1 => { symbytes(&mut v, at + 4, 1, cs!("ns")); must_pass = v[at + 4] as usize == ns; must_fail = !must_pass; }
        2 => {
            for i in 0..ns { symbytes(&mut v, at + 5 + 2 * i, 1, cs!("id")); }
            let mut ok = true; must_fail = false;
            for i in 0..ns {
                let x = v[at + 5 + 2 * i] as usize;
                if !prog { ok &= x == i + 1; }
                must_fail |= x == 0 || x > n;
                for j in 0..i { must_fail |= v[at + 5 + 2 * j] as usize == x; }
            }
            must_pass = ok && !must_fail && !prog;
        }
        3 => {
            // table selectors: only tables 0 are defined
            symbytes(&mut v, at + 6, 1, cs!("tables"));
            let (dc, ac) = (v[at + 6] >> 4, v[at + 6] & 15);
            let usesdc = !prog || v[tail] == 0;
            let usesac = !prog || v[tail] != 0;
            must_fail = (usesdc && dc != 0) || (usesac && ac != 0);
            must_pass = dc == 0 && ac == 0;
        }
        _ => {
            symbytes(&mut v, tail + 2, 1, cs!("approx"));
            let (ah, al) = (v[tail + 2] >> 4, v[tail + 2] & 15);
            must_fail = ah > 13 || al > 13;
            must_pass = ah == 0 && al == 0;
        }
    }
    let mut d = Decoder::new_with_options(opts(0, true));
    match d.decode_buffer(&v) {
        Ok(o) => {
            zs::cover(cs!("accepted"));
            zs::check(!must_fail, cs!("an invalid scan header is rejected"));
            sized(&d, &o);
            if p(20) != 4 && p(20) != 2 { compare(&o, &expected(&planes, pl.w, pl.h, 0), 0); }
        }
        Err(_) => { zs::cover(cs!("rejected")); zs::check(!must_pass, cs!("a valid scan header is accepted")) }
    }
}
/// table segments: -p 20=kind
#[no_mangle]
pub extern "C" fn h_tables() {
    let pl = small(1, 1, 1);
    let (mut v, planes) = baseline(&pl);
    let (mut must_fail, mut must_pass) = (false, false);
    let mut same = true; // decoding gives the original image
    match p(20) {
        0 => { let a = find(&v, 0xdb, 0); symbytes(&mut v, a + 4, 1, cs!("pq_tq")); must_pass = v[a + 4] == 0; must_fail = !must_pass; }
        1 => { let a = find(&v, 0xdb, 0); symbytes(&mut v, a + 2, 2, cs!("length")); let l = (v[a + 2] as usize) << 8 | v[a + 3] as usize; must_pass = l == 67; must_fail = l < 67; same = false; }
        2 => { let a = find(&v, 0xc4, 0); symbytes(&mut v, a + 4, 1, cs!("tc_th")); must_pass = v[a + 4] == 0; must_fail = !must_pass; }
        3 => { let a = find(&v, 0xc4, p(19)); symbytes(&mut v, a + 2, 2, cs!("length")); let l0 = (v[a + 2] as usize) << 8 | v[a + 3] as usize; let n: usize = (0..16).map(|i| v[a + 5 + i] as usize).sum(); must_pass = l0 == 19 + n; must_fail = l0 < 19 + n; same = false; }
        4 => { // DRI length and interval: an interval beyond the image changes nothing
            let a = find(&v, 0xda, 0);
            let mut s = Jw::new(); s.v.clear(); s.dri(0);
            for (i, b) in s.v.iter().enumerate() { v.insert(a + i, *b); }
            symbytes(&mut v, a + 2, 2, cs!("length"));
            symbytes(&mut v, a + 4, 2, cs!("interval"));
            let l = (v[a + 2] as usize) << 8 | v[a + 3] as usize;
            must_pass = l == 4; must_fail = !must_pass;
        }
        5 | 6 => {
            // a further Huffman table with symbolic code counts for three lengths
            let lens: [usize; 3] = match p(19) { 0 => [0, 1, 2], 1 => [1, 3, 5], 2 => [0, 8, 15], 3 => [6, 9, 11], _ => [2, 14, 15] };
            let mut c = [0u8; 16];
            c[7] = p(22) as u8; // 22: a large number of eight-bit codes besides
            for l in lens { c[l] = zs::conc(zs::bits(p(21) as u32, 1, cs!("count")) as u64) as u8; if l == 7 { c[7] += p(22) as u8; } }
            let (mut code, mut ok, mut total, mut last) = (0u32, true, 0usize, 0usize);
            for l in 0..16 { code = code * 2 + c[l] as u32; total += c[l] as usize; if c[l] > 0 { last = l; } if code > 1 << (l + 1) { ok = false; } if c[l] > 0 && code >= 1 << (l + 1) { ok = false; } }
            let _ = last;
            ok &= total <= 256;
            must_pass = ok; must_fail = !ok;
            let mut s = Jw::new(); s.v.clear();
            let mut vals = vec![0u8; total.min(256)];
            for i in 0..vals.len() { vals[i] = (i % 12) as u8; }
            s.marker(0xc4); s.u16(19 + total as u16); s.v.push(if p(20) == 5 { 0x03 } else { 0x13 }); s.v.extend_from_slice(&c); s.v.extend_from_slice(&vals);
            for _ in vals.len()..total { s.v.push(0); }
            let a = find(&v, 0xda, 0);
            for (i, b) in s.v.iter().enumerate() { v.insert(a + i, *b); }
        }
        7 => {
            // several tables in one segment, in one DHT and one DQT
            let mut j = Jw::new();
            let (dc, ac) = tables(0);
            let q: Vec<[u8; 64]> = (0..3).map(|k| { let mut t = [0u8; 64]; for i in 0..64 { t[i] = (i as u8 + 1) * (k as u8 + 1); } t }).collect();
            j.marker(0xdb); j.u16(2 + 65 * 3);
            for (i, t) in q.iter().enumerate() { j.v.push(2 - i as u8); for k in 0..64 { j.v.push(t[ZZ[k]]); } }
            j.sof(0xc0, 8, 8, &[(1, 1, 1, 1)]);
            j.marker(0xc4); j.u16(2 + (17 + dc.vals.len() as u16) * 2 + 17 + ac.vals.len() as u16);
            for (id, t) in [(0x01u8, &dc), (0x12, &ac), (0x02, &dc)] { j.v.push(id); j.v.extend_from_slice(&t.bits); j.v.extend_from_slice(&t.vals); }
            j.sos(&[(1, 0x12)], 0, 63, 0, 0);
            let m = mag(5, true, 1);
            j.sym(&dc, 5); j.put(m, 5);
            let m2 = mag(4, true, 2);
            j.sym(&ac, 4); j.put(m2, 4); j.sym(&ac, 0);
            j.flush(); j.eoi();
            let mut b = gold::Block { c: [0; 64], dc_only: false };
            b.c[0] = extend(5, m); b.c[1] = extend(4, m2);
            let mut qq = [0i32; 64]; for i in 0..64 { qq[i] = q[1][i] as i32; }
            let planes = vec![gold::Plane { h: 1, v: 1, bw: 1, bh: 1, b: vec![b], q: qq }];
            decode_and_compare(&j.v, &planes, 8, 8, 1, true);
            return;
        }
        _ => {}
    }
    let mut d = Decoder::new_with_options(opts(0, true));
    match d.decode_buffer(&v) {
        Ok(o) => {
            zs::cover(cs!("accepted"));
            zs::check(!must_fail, cs!("a malformed table segment is rejected"));
            sized(&d, &o);
            if must_pass && same { compare(&o, &expected(&planes, 8, 8, 1), 0); }
        }
        Err(_) => { zs::cover(cs!("rejected")); zs::check(!must_pass, cs!("a well-formed table segment is accepted")) }
    }
}
/// arbitrary bytes: -p 16=kind 17=number of symbolic bytes 18=variant
#[no_mangle]
pub extern "C" fn h_any() {
    let (n, var) = (p(17), p(18));
    let kind = p(16);
    let ncomp = if var & 1 != 0 { 3 } else { 1 };
    let pl0 = small(ncomp, if ncomp == 3 { 1 + (var >> 1 & 1) } else { 1 }, if ncomp == 3 { 1 + (var >> 2 & 1) } else { 1 });
    let mut pl = pl0.clone();
    pl.ac = vec![(1, 2), (9, 1)];
    pl.dri = if var & 8 != 0 { 1 } else { 0 };
    if var & 8 != 0 { pl.w *= 2; }
    let prog = kind >= 10;
    let script = if var & 16 != 0 { 1 } else { 0 };
    let lim = if p(21) == 0 { 32 } else { p(21) as u16 };
    let mk = || if prog { progressive(&pl, &progdef(script)).data } else { baseline(&pl).0 };
    let mut v;
    let scan = |v: &[u8], k: usize| { let mut left = k + 1; for i in 0..v.len() - 1 { if v[i] == 0xff && v[i + 1] == 0xda { left -= 1; if left == 0 { return i; } } } v.len() - 2 };
    match kind % 10 {
        0 => { // any bytes from the start
            v = vec![0u8; n];
            symbytes(&mut v, 0, n, cs!("any"));
            if var & 32 == 0 { zs::assume(v[0] == 0xff && v[1] == 0xd8); }
        }
        1 => {
            // the frame header; dimensions within the limits are enumerated (20: bit 0 keeps the height, bit 1 the width, bits 2-4 the components' ids, sampling factors, table selectors)
            v = mk();
            let a = find(&v, if prog { 0xc2 } else { 0xc0 }, 0);
            let old = v.clone();
            let m = n.min(8 + 3 * ncomp);
            symbytes(&mut v, a + 2, m, cs!("sof"));
            for i in a + 2..a + 2 + m { if (i == a + 5 || i == a + 6) && p(20) & 1 != 0 || (i == a + 7 || i == a + 8) && p(20) & 2 != 0 || i >= a + 10 && p(20) >> (2 + (i - a - 10) % 3) & 1 != 0 { v[i] = old[i]; } }
            for i in [a + 5, a + 7] {
                let x = (v[i] as u16) << 8 | v[i + 1] as u16;
                if x <= lim { v[i] = zs::conc(v[i] as u64) as u8; v[i + 1] = zs::conc(v[i + 1] as u64) as u8; }
            }
            for i in a + 10..a + 2 + m {
                let x = v[i];
                let plain = match (i - a - 10) % 3 { 0 => x <= 4, 1 => (x >> 4 == 1 || x >> 4 == 2 || x >> 4 == 4) && (x & 15 == 1 || x & 15 == 2 || x & 15 == 4), _ => x < 5 };
                if plain { v[i] = zs::conc(x as u64) as u8; }
            }
        }
        2 => { v = mk(); let a = scan(&v, p(19)); let m = n.min(6 + 2 * v[a + 4] as usize); symbytes(&mut v, a + 2 + p(20).min(m - 1), m - p(20).min(m - 1), cs!("sos")); }
        3 => { v = mk(); let a = find(&v, 0xc4, p(19)); symbytes(&mut v, a + 2 + p(20), n, cs!("dht")); }
        4 => { v = mk(); let a = find(&v, 0xdb, 0); symbytes(&mut v, a + 2, n.min(67), cs!("dqt")); }
        5 => { // any entropy coded data
            v = mk();
            let a = scan(&v, p(19));
            let h = 4 + ((v[a + 2] as usize) << 8 | v[a + 3] as usize) - 2;
            v.truncate(a + h);
            let m = v.len();
            for _ in 0..n { v.push(0); }
            symbytes(&mut v, m, n, cs!("entropy"));
            if var & 32 == 0 { v.push(0xff); v.push(0xd9); }
        }
        6 => { // any marker, with any length, in front of the scan
            v = mk();
            let a = if var & 32 != 0 { scan(&v, 1) } else { scan(&v, 0) };
            for (i, b) in [0xff, 0xe0, 0, 4, 0, 0].iter().enumerate() { v.insert(a + i, *b); }
            symbytes(&mut v, a + 1, n.min(5), cs!("segment"));
        }
        7 => { // one symbolic marker byte anywhere among the markers of the file
            v = mk();
            let mut k = p(19);
            let mut at = 1;
            for i in 0..v.len() - 1 { if v[i] == 0xff && v[i + 1] != 0 && v[i + 1] != 0xff { if k == 0 { at = i + 1; break; } k -= 1; } }
            symbytes(&mut v, at, 1, cs!("marker"));
        }
        _ => { // one symbolic window over an otherwise valid file
            v = mk();
            let a = p(19).min(v.len() - 1);
            let m = n.min(v.len() - a);
            symbytes(&mut v, a, m, cs!("window"));
        }
    }
    let o = opts(p(5) as i64, p(6) != 0).set_max_width(lim).set_max_height(lim).set_num_threads(NonZeroU32::new(1).unwrap()).set_strict_mode(var & 64 != 0).set_max_scans(12);
    let mut d = Decoder::new_with_options(o);
    match d.decode_buffer(&v) { Ok(o) => sized(&d, &o), Err(_) => zs::cover(cs!("err")) }
    if kind % 10 != 5 {
        let mut d = Decoder::new_with_options(o);
        if d.read_headers(&v).is_ok() { zs::check(d.info().is_some(), cs!("info() is available after the headers were read")); }
    }
}
/// truncation: the first k bytes of a valid file for every k: -p as h_prog, 24=progressive 25=first cut 26=last cut 27: bytes appended (EOI) after the cut
#[no_mangle]
pub extern "C" fn h_trunc() {
    let pl = crate::props::plan();
    let prog = p(24) != 0;
    let (data, planes, ends, ncomp) = if prog { let r = progressive(&pl, &crate::props::progp()); (r.data, r.planes, vec![], pl.ncomp) } else { let e = baseline_enc(&pl); (e.j.v, e.planes, e.ends, pl.ncomp) };
    let (lo, hi) = (p(25).min(data.len()), if p(26) == 0 { data.len() } else { p(26).min(data.len()) });
    let c = zs::u16v(data.len() as u16, cs!("cut")) as usize;
    zs::assume(c >= lo && c <= hi);
    let cut = zs::conc(c as u64) as usize;
    let mut v = data[..cut].to_vec();
    if p(27) != 0 { v.push(0xff); v.push(0xd9); }
    let mut d = Decoder::new_with_options(opts(p(5) as i64, p(6) != 0));
    match d.decode_buffer(&v) {
        Ok(o) => {
            sized(&d, &o);
            zs::check(usize::from(d.width()) == pl.w && usize::from(d.height()) == pl.h, cs!("width() and height() report the frame header"));
            let want = expected(&planes, pl.w, pl.h, p(5) as i64);
            if cut == data.len() { compare(&o, &want, 0); zs::cover(cs!("complete")); }
            else if !ends.is_empty() {
                // MCUs whose bits (and those of their right neighbour, which interpolation uses) are all there come out unchanged
                let (hm, vm) = if ncomp == 1 { (1, 1) } else { (pl.hs, pl.vs) };
                let nb = if ncomp == 1 { 1 } else { hm * vm + 2 };
                let mx = (pl.w + 8 * hm - 1) / (8 * hm);
                let ch = want.len() / (pl.w * pl.h);
                for m in 0..ends.len() / nb {
                    let (bx, by) = (m % mx, m / mx);
                    let need = if hm > 1 && bx + 1 < mx { m + 1 } else { m };
                    if ends[need * nb + nb - 1] > cut { break; }
                    for y in by * 8 * vm..(by * 8 * vm + 8 * vm).min(pl.h) { for x in bx * 8 * hm..(bx * 8 * hm + 8 * hm).min(pl.w) { for c in 0..ch {
                        let i = (y * pl.w + x) * ch + c;
                        if zs::issym(want[i] as u64) || want[i] >= 0 { zs::near(o[i] as i32, want[i], 0, cs!("pixels before the end of a truncated file are decoded")); }
                    } } }
                }
            }
        }
        Err(_) => { zs::cover(cs!("err")); zs::check(cut != data.len(), cs!("valid image decodes")); }
    }
    if p(28) != 0 { let mut d = Decoder::new(); let _ = d.read_headers(&v); }
}
fn kind(k: usize) -> (Vec<u8>, ZuneJpegOptions) { (kind_data(k), opts(0, true)) }
fn kind_data(k: usize) -> Vec<u8> {
    match k {
        0 => { let mut q = Plan::gray(9, 8); q.dc_s = 5; q.ac = vec![(1, 2), (10, 1)]; q.q = 5; baseline(&q).0 }
        1 => { let mut q = Plan::ycc(19, 35, 2, 2); q.dc_s = 3; q.dri = 2; q.q = 6; baseline(&q).0 }
        2 => { let mut q = Plan::ycc(17, 9, 2, 1); q.dc_s = 4; q.q = 4; q.ac = vec![(1, 2), (5, 2), (30, 1)]; progressive(&q, &progdef(1)).data }
        3 => { let mut v = kind_data(1); let a = find(&v, 0xda, 0); v.truncate(a + 3); v }
        4 => { let mut q = Plan::ycc(9, 17, 1, 2); q.dc_s = 4; q.q = 9; q.tables = 2; baseline(&q).0 }
        5 => { let mut q = Plan::ycc(8, 8, 1, 1); q.dc_s = 4; q.q = 3; q.tables = 1; baseline(&q).0 }
        // no tables of its own
        6 => { let mut v = kind_data(5); for (m, k) in [(0xc4, 1), (0xc4, 0)] { let a = find(&v, m, k); let l = 2 + ((v[a + 2] as usize) << 8 | v[a + 3] as usize); v.drain(a..a + l); } v }
        7 => { let mut v = kind_data(5); let a = find(&v, 0xdb, 1); let l = 2 + ((v[a + 2] as usize) << 8 | v[a + 3] as usize); v.drain(a..a + l); v }
        // broken in the scan data: bad Huffman code
        8 => { let mut v = kind_data(1); let n = v.len(); v.truncate(n - 2); for _ in 0..4 { v.push(0xff); v.push(0); } v.push(0xff); v.push(0xc4); v.push(0); v.push(1); v }
        9 => { let mut v = kind_data(2); let n = v.len(); v.truncate(n * 2 / 3); v }
        10 => { let mut q = Plan::gray(16, 8); q.dc_s = 3; q.dri = 1; q.hs = 2; q.vs = 2; q.q = 2; baseline(&q).0 }
        11 => { let mut q = Plan::gray(8, 9); q.dc_s = 4; q.q = 4; q.ac = vec![(1, 2)]; progressive(&q, &progdef(4)).data }
        // gray file cut before its frame header's end
        12 => { let mut v = kind_data(0); let a = find(&v, 0xda, 0); v.truncate(a); v }
        _ => { let mut q = Plan::ycc(16, 16, 2, 2); q.dc_s = 3; q.q = 6; baseline(&q).0 }
    }
}
/// what a decoder did earlier does not matter: -p 16..18 = kinds decoded before (+1; +100: only headers read), 19 = kind compared,
/// 5=colorspace, 6=unsafe, 7: switch the colorspace before the last image
#[no_mangle]
pub extern "C" fn h_reuse() {
    let csp = p(5) as i64;
    let mut d = Decoder::new_with_options(opts(csp, p(6) != 0));
    for i in 16..19 {
        let k = p(i);
        if k == 0 { continue; }
        if k >= 100 { let _ = d.read_headers(&kind(k - 100).0); } else { let _ = d.decode_buffer(&kind(k - 1).0); }
    }
    let mut csp2 = csp;
    if p(7) != 0 { csp2 = p(7) as i64; #[allow(deprecated)] d.set_output_colorspace(cspace(csp2)); }
    let data = kind(p(19)).0;
    let mut f = Decoder::new_with_options(opts(csp2, p(6) != 0));
    let a = d.decode_buffer(&data);
    let b = f.decode_buffer(&data);
    zs::check(d.width() == f.width() && d.height() == f.height(), cs!("a used decoder reports the same dimensions as a new one"));
    zs::check(d.get_output_colorspace() == f.get_output_colorspace(), cs!("a used decoder reports the same colorspace as a new one"));
    zs::check(d.info() == f.info(), cs!("a used decoder reports the same info as a new one"));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            zs::cover(cs!("both"));
            zs::check(a.len() == b.len(), cs!("a used decoder gives the same pixels as a new one"));
            for i in 0..b.len() { if csp2 != 4 || i % 4 != 3 || b.len() != usize::from(f.width()) * usize::from(f.height()) * 4 { zs::near(a[i] as i32, b[i] as i32, 0, cs!("a used decoder gives the same pixels as a new one")); } }
        }
        (Err(_), Err(_)) => zs::cover(cs!("neither")),
        _ => zs::check(false, cs!("a used decoder accepts the same images as a new one")),
    }
}
/// two images one after the other, the second against the reference: -p 2=components 3=hs 4=vs 5=colorspace 6=unsafe 16, 19=tables 20=new decoder for the second
/// 21=progressive (bit 0 first, bit 1 second) 22=restart intervals (same bits) 24=quantisation symbolic (same bits) 25=size of the second differs
#[no_mangle]
pub extern "C" fn h_series() {
    let bit = |i: usize, k: usize| p(i) >> k & 1 != 0;
    let make = |k: usize| {
        let mut q = if p(2) == 1 { Plan::gray(17, 9) } else { Plan::ycc(17, 9, p(3), p(4)) };
        if k == 1 && p(25) != 0 { q.w = 9 + p(25); q.h = 8 + 9 * p(25); }
        q.tables = p(if k == 0 { 16 } else { 19 });
        q.dc_s = 4; q.ac = vec![(1, 2), (3, 1)]; q.ac_every = 2;
        q.q = 3 + 2 * k as u8;
        q.symq = bit(24, k);
        if q.symq { q.ac = vec![(1, 1)]; }
        q.sym_every = if k == 0 || q.symq { 0 } else { 2 };
        q.dri = if bit(22, k) { 1 + k } else { 0 };
        let (data, planes) = if bit(21, k) { let r = progressive(&q, &progdef(1)); (r.data, r.planes) } else { baseline(&q) };
        (q, data, planes)
    };
    let (_, a, _) = make(0);
    let (q, b, planes) = make(1);
    let o = opts(p(5) as i64, p(6) != 0);
    let mut d = Decoder::new_with_options(o);
    zs::check(d.decode_buffer(&a).is_ok(), cs!("valid image decodes"));
    if p(20) != 0 { d = Decoder::new_with_options(o); }
    match d.decode_buffer(&b) {
        Ok(o) => {
            zs::check(usize::from(d.width()) == q.w && usize::from(d.height()) == q.h, cs!("width() and height() report the frame header"));
            compare(&o, &expected(&planes, q.w, q.h, p(5) as i64), 0);
            zs::cover(cs!("decoded"));
        }
        Err(_) => zs::check(false, cs!("valid image decodes")),
    }
}
/// two configurations on the same image: -p image as h_baseline/h_prog, 24=progressive; 27=kind of pair
#[no_mangle]
pub extern "C" fn h_pair() {
    let pl = crate::props::plan();
    let data = if p(24) != 0 { progressive(&pl, &crate::props::progp()).data } else { baseline(&pl).0 };
    let base = opts(p(5) as i64, false).set_num_threads(NonZeroU32::new(1).unwrap());
    let (oa, ob, na, nb) = match p(27) {
        0 => (base, base.set_use_unsafe(true), 1, 1),
        1 => (base, base.set_num_threads(NonZeroU32::new(2 + p(28) as u32).unwrap()), 1, 1),
        2 => (base.set_out_colorspace(ColorSpace::RGB), base.set_out_colorspace(ColorSpace::RGBA), 3, 4),
        3 => (base.set_out_colorspace(ColorSpace::RGBA), base.set_out_colorspace(ColorSpace::RGBX), 4, 4),
        4 => (base.set_out_colorspace(ColorSpace::GRAYSCALE), base.set_out_colorspace(ColorSpace::YCbCr), 1, 3),
        5 => (base, base.set_strict_mode(true).set_max_scans(17), 1, 1),
        6 => (base, base.set_max_width(pl.w as u16).set_max_height(pl.h as u16), 1, 1),
        _ => (base.set_use_unsafe(true).set_out_colorspace(ColorSpace::RGB), base.set_use_unsafe(true).set_out_colorspace(ColorSpace::RGBX), 3, 4),
    };
    let a = Decoder::new_with_options(oa).decode_buffer(&data);
    let b = Decoder::new_with_options(ob).decode_buffer(&data);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            zs::cover(cs!("decoded"));
            let (na, nb) = if pl.ncomp == 1 { (1, 1) } else { (na, nb) };
            zs::check(a.len() / na == b.len() / nb && a.len() % na == 0, cs!("both configurations give the same number of pixels"));
            let m = if p(27) == 3 { 3 } else { na.min(nb) };
            let m = if p(27) == 4 || pl.ncomp == 1 { 1 } else { m };
            for i in 0..a.len() / na { for c in 0..m { zs::near(a[i * na + c] as i32, b[i * nb + c] as i32, 0, cs!("both configurations give the same samples")); } }
        }
        _ => zs::check(false, cs!("valid image decodes")),
    }
}
/// options: -p 16=kind
#[no_mangle]
pub extern "C" fn h_opts() {
    match p(16) {
        0 => {
            // setters and getters
            let (w, h) = (zs::u16v(5, cs!("w")), zs::u16v(6, cs!("h")));
            let s = zs::u16v(7, cs!("scans")) as usize * 65537;
            let t = zs::u16v(9, cs!("threads")) as u32 * 65536 + 1;
            let b = zs::u8v(1, cs!("flags"));
            let o = ZuneJpegOptions::new().set_max_width(w).set_max_scans(s).set_num_threads(NonZeroU32::new(t).unwrap()).set_strict_mode(b & 1 != 0).set_use_unsafe(b & 2 != 0).set_max_height(h).set_out_colorspace(ColorSpace::RGBX);
            zs::check(o.get_max_width() == w && o.get_max_height() == h, cs!("limit setters and getters agree"));
            zs::check(o.get_max_scans() == s && o.get_threads() == t, cs!("scan and thread setters and getters agree"));
            zs::check(o.get_strict_mode() == (b & 1 != 0) && o.get_use_unsafe() == (b & 2 != 0), cs!("flag setters and getters agree"));
            zs::check(o.get_out_colorspace() == ColorSpace::RGBX, cs!("colorspace setter and getter agree"));
            zs::cover(cs!("ok"));
        }
        1 => {
            let mut b = [0u8; 8];
            zs::bytes(&mut b, cs!("threads"));
            let t = u64::from_le_bytes(b);
            let mut d = Decoder::new();
            #[allow(deprecated)]
            let r = d.set_num_threads(t as usize).is_ok();
            zs::check(r == (t != 0 && t <= u32::MAX as u64), cs!("thread counts from 1 to 2^32-1 are accepted, others refused"));
            zs::cover(cs!("ok"));
        }
        2 => {
            // extra bytes between header segments: 17=how many, 18=before which marker
            let n = p(17);
            let pl = small(1, 1, 1);
            let (mut v, planes) = baseline(&pl);
            let a = match p(18) { 0 => 2, 1 => find(&v, 0xc0, 0), 2 => find(&v, 0xc4, 1), _ => find(&v, 0xda, 0) };
            for _ in 0..n { v.insert(a, 0); }
            symbytes(&mut v, a, n, cs!("extra"));
            for i in 0..n { zs::assume(v[a + i] != 0xff); }
            let mut d = Decoder::new_with_options(opts(0, true).set_strict_mode(true));
            let r = d.decode_buffer(&v);
            if n == 0 { zs::check(r.is_ok(), cs!("strict mode accepts a conforming file")); }
            if n > 3 { zs::check(r.is_err(), cs!("strict mode refuses extra bytes between headers")); }
            let mut d = Decoder::new_with_options(opts(0, true));
            match d.decode_buffer(&v) { Ok(o) => compare(&o, &expected(&planes, 8, 8, 1), 0), Err(_) => zs::check(false, cs!("extra bytes between headers are tolerated unless strict mode is on")) }
            zs::cover(cs!("ok"));
        }
        3 => {
            // grayscale image with a down-sampled component
            let mut pl = small(1, p(17), p(18));
            pl.w = 19; pl.h = 13; pl.dc_s = 4; pl.sym_every = 1;
            let (v, planes) = if p(24) != 0 { let r = progressive(&pl, &progdef(0)); (r.data, r.planes) } else { baseline(&pl) };
            let plain = p(17) == 1 && p(18) == 1;
            let mut d = Decoder::new_with_options(opts(0, true).set_strict_mode(true));
            zs::check(d.decode_buffer(&v).is_ok() == plain, cs!("strict mode refuses a down-sampled grayscale component"));
            let mut d = Decoder::new_with_options(opts(0, true));
            match d.decode_buffer(&v) { Ok(o) => compare(&o, &expected(&planes, pl.w, pl.h, 1), 0), Err(_) => zs::check(false, cs!("valid image decodes")) }
            zs::cover(cs!("ok"));
        }
        4 => {
            // scan limit
            let mut pl = small(p(2), 1, 1);
            pl.ac = vec![(1, 2), (20, 1)];
            let r = progressive(&pl, &progdef(p(17)));
            let m = zs::u16v(1, cs!("max")) as usize;
            let mut d = Decoder::new_with_options(opts(0, true).set_max_scans(m));
            match d.decode_buffer(&r.data) {
                Ok(o) => { zs::cover(cs!("accepted")); zs::check(r.scans <= m || r.scans == 1, cs!("progressive images with too many scans are refused")); compare(&o, &expected(&r.planes, pl.w, pl.h, 0), 0); }
                Err(_) => { zs::cover(cs!("rejected")); zs::check(r.scans > m, cs!("progressive images within the scan limit are accepted")); }
            }
        }
        5 => {
            // unsupported output colorspaces are refused, not mis-decoded
            let pl = small(p(2), 1, 1);
            let (v, planes) = baseline(&pl);
            let c = if p(17) == 0 { ColorSpace::CMYK } else { ColorSpace::YCCK };
            let mut d = Decoder::new_with_options(ZuneJpegOptions::new().set_out_colorspace(c));
            match d.decode_buffer(&v) {
                Ok(o) => { zs::check(pl.ncomp == 1, cs!("an output colorspace without a conversion is refused")); compare(&o, &expected(&planes, pl.w, pl.h, 1), 0); }
                Err(_) => zs::check(pl.ncomp == 3, cs!("valid image decodes")),
            }
            zs::cover(cs!("ok"));
        }
        _ => {
            // deprecated setters do what the options do
            let mut pl = small(3, 1, 1);
            pl.sym_every = 1;
            let (v, planes) = baseline(&pl);
            let mut d = Decoder::new();
            #[allow(deprecated)]
            { if p(17) == 0 { d.rgba(); } else { d.set_output_colorspace(cspace(p(17) as i64)); } }
            let c = if p(17) == 0 { 3 } else { p(17) as i64 };
            zs::check(d.get_output_colorspace() == cspace(c), cs!("output colorspace setter is honoured"));
            match d.decode_buffer(&v) { Ok(o) => compare(&o, &expected(&planes, pl.w, pl.h, c), 0), Err(_) => zs::check(false, cs!("valid image decodes")) }
            #[allow(deprecated)]
            d.set_limits(7, 8);
            zs::check(d.decode_buffer(&v).is_err(), cs!("set_limits is honoured"));
            #[allow(deprecated)]
            d.set_limits(8, 8);
            zs::check(d.decode_buffer(&v).is_ok(), cs!("set_limits is honoured"));
            zs::cover(cs!("ok"));
        }
    }
}
/// ancillary segments with arbitrary payload: -p 16=payload length 17=marker 18=position 21=total length 24=progressive 20=fill bytes before it
#[no_mangle]
pub extern "C" fn h_segs() {
    let mut pl = small(p(2), p(3), p(4));
    pl.ac = vec![(1, 2)];
    pl.sym_every = 1;
    let (mut v, planes) = if p(24) != 0 { let r = progressive(&pl, &progdef(0)); (r.data, r.planes) } else { baseline(&pl) };
    let n = p(16);
    let mut s = Jw::new(); s.v.clear();
    for _ in 0..p(20) { s.v.push(0xff); }
    let mut body = vec![0u8; n];
    if n > 0 { zs::bytes(&mut body, cs!("payload")); }
    // 21: fixed content up to this length that looks like markers wherever parsing might resume
    let trap = [0xffu8, 0xd9, 0xff, 0xc4, 0, 2, 0xff, 0xdb, 0, 3, 9, 0xff, 0xda, 0xff];
    while body.len() < p(21) { let i = body.len(); body.push(trap[i % 14]); }
    for k in 0..=p(19) { s.seg((p(17) + k) as u8, &body); }
    for _ in 0..p(20) { s.v.push(0xff); }
    let scan = |v: &[u8], k: usize| { let mut left = k + 1; for i in 0..v.len() - 1 { if v[i] == 0xff && v[i + 1] == 0xda { left -= 1; if left == 0 { return i; } } } 0 };
    let at = match p(18) { 0 => 2, 1 => find(&v, if p(24) != 0 { 0xc2 } else { 0xc0 }, 0), 2 => find(&v, 0xc4, 0), 3 => scan(&v, 0), k => scan(&v, k - 3) };
    let tail = v.split_off(at);
    v.extend_from_slice(&s.v); v.extend_from_slice(&tail);
    decode_and_compare(&v, &planes, pl.w, pl.h, p(5) as i64, true);
}
/// colours: -p 0=w 5=cs 6=unsafe
#[no_mangle]
pub extern "C" fn h_color() {
    let mut pl = Plan::ycc(p(0), 1, 1, 1);
    pl.dc_s = 8; pl.q = 8; pl.ac_every = 0; pl.sym_every = p(0); // the first block is symbolic; the others repeat it
    let (dc, ac) = tables(0);
    let mut e = frame(&pl, 0xc0);
    e.j.dht(0, 0, &dc);
    e.j.dht(1, 0, &ac);
    e.j.sos(&[(1, 0), (2, 0), (3, 0)], 0, 63, 0, 0);
    let mut c = [0i32; 3];
    for k in 0..3 {
        let s = p(16 + k) as u32; // category of the component
        let m = zs::bits(s, 1, cs!("mag"));
        // green depends on three values: one of them is enumerated
        let m = if k == 2 { zs::conc(m as u64) as u32 } else { m };
        c[k] = extend(s, m);
        e.j.sym(&dc, s as u8);
        e.j.put(m, s);
        e.j.sym(&ac, 0);
    }
    for _ in 1..e.mcux { for _ in 0..3 { e.j.sym(&dc, 0); e.j.sym(&ac, 0); } }
    e.j.flush(); e.j.eoi();
    for k in 0..3 { zs::assume(c[k] >= -128 && c[k] <= 127); }
    let (y, cb, cr) = (c[0] + 128, c[1], c[2]);
    let cl = |x: i32| if x < 0 { 0 } else if x > 255000 { 255000 } else { x };
    let mut want = [cl(1000 * y + 1402 * cr), cl(1000 * y - 344 * cb - 714 * cr), cl(1000 * y + 1772 * cb)];
    let csp = p(5) as i64;
    let n = match csp { 3 | 4 => 4, 1 => 1, _ => 3 };
    let mut tol = 2000 + 18; // 18: the rounding of 0.344136 and 0.714136 above
    if csp == 2 || csp == 1 { want = [1000 * y, 1000 * (cb + 128), 1000 * (cr + 128)]; tol = 0; }
    let mut d = Decoder::new_with_options(opts(csp, p(6) != 0));
    match d.decode_buffer(&e.j.v) {
        Ok(o) => {
            zs::check(o.len() == p(0) * n, cs!("length of the decoded buffer is width*height*components"));
            for i in 0..p(0) {
                for k in 0..n.min(3) { zs::near(1000 * o[i * n + k] as i32, want[k], tol, cs!("colours are within two levels of the BT.601 values")); }
                if csp == 3 { zs::check(o[i * n + 3] == 255, cs!("alpha is opaque")); }
            }
            zs::cover(cs!("decoded"));
        }
        Err(_) => zs::check(false, cs!("valid image decodes")),
    }
}
/// a Huffman table with the given shape; symbols in `vals` order
pub fn shape(kind: usize, vals: &[u8]) -> Huff {
    let n = vals.len();
    let mut b = [0u8; 16];
    match kind {
        // one code per length as far as they go, the rest with 16 bits
        0 => { let k = n.min(15); for l in 0..k { b[l] = 1; } b[15] += (n - k) as u8; if n - k > 1 { return shape(1, vals); } }
        // as skewed as possible
        1 => {
            let mut left = n; let mut avail = 1usize;
            for l in 0..16 {
                avail *= 2;
                // take one code if the remaining lengths can hold the others
                let cap = (avail - 1) << (15 - l);
                if l == 15 { b[l] = left as u8; left = 0; } else if left > 1 && left - 1 < cap { b[l] = 1; left -= 1; avail -= 1; }
            }
            if left != 0 { return Huff::flat(9, vals); }
        }
        k if k < 20 => { let l = (k - 2).max(2); let mut l = l; while (1usize << l) <= n { l += 1; } return Huff::flat(l.min(16), vals); }
        // pseudo-random shapes
        k => {
            let mut seed = k as u32;
            let mut left = n; let mut avail = 1usize;
            for l in 0..16 {
                avail *= 2;
                seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
                let mut t = ((seed >> 16) as usize) % (avail / 2 + 1);
                if l == 15 { t = left; }
                if t > left { t = left; }
                while l < 15 && t > 0 && (left - t) >= ((avail - t) << (15 - l)) { t -= 1; }
                if l < 15 && t == avail { t -= 1; }
                b[l] = t as u8; left -= t; avail -= t;
            }
        }
    }
    Huff::new(b, vals)
}
fn permute(v: &mut Vec<u8>, seed: u32) { let n = v.len(); let mut s = seed.wrapping_mul(747796405).wrapping_add(1); for i in (1..n).rev() { s = s.wrapping_mul(1664525).wrapping_add(1013904223); let j = (s >> 8) as usize % (i + 1); v.swap(i, j); } }
/// all symbols of tables of any shape: -p 16=DC shape 17=AC shape 18=first symbol 19=number of symbols 20=largest magnitude category 21=value order seed 24=progressive
#[no_mangle]
pub extern "C" fn h_huff() {
    let maxs = p(20).max(1) as u8;
    let mut dv: Vec<u8> = (0..12).collect();
    let mut av: Vec<u8> = vec![0, 0xf0];
    for r in 0..16u8 { for s in 1..=maxs { av.push(r << 4 | s); } }
    // 25: a table of all 256 symbols
    if p(25) != 0 { for v in 0..=255u8 { if !av.contains(&v) { av.push(v); } } }
    if p(21) != 0 { permute(&mut dv, p(21) as u32); permute(&mut av, p(21) as u32 + 7); }
    if p(22) != 0 { av.truncate(p(22)); if !av.contains(&0) { av[0] = 0; } if !av.contains(&0xf0) { let l = av.len() - 1; av[l] = 0xf0; } }
    let (dc, ac) = (shape(p(16), &dv), shape(p(17), &av));
    let n = p(19);
    let mut pl = Plan::gray(8 * n, 8);
    pl.q = 1;
    let mut e = frame(&pl, 0xc0);
    e.j.dht(0, 0, &dc);
    e.j.dht(1, 0, &ac);
    e.j.dri(1);
    e.j.sos(&[(1, 0)], 0, 63, 0, 0);
    for i in 0..n {
        if i > 0 { e.j.flush(); e.j.marker(0xd0 + ((i - 1) & 7) as u8); }
        let s = dv[(p(18) + i) % dv.len()];
        let mut a = av[(p(18) + i) % av.len()];
        if a & 15 == 0 && a != 0xf0 || a & 15 > maxs { a = 0; } // not a symbol of baseline images
        // 23: at most this many bits of each magnitude are symbolic
        let cap = if p(23) == 0 { 16 } else { p(23) as u32 * if a & 15 == 0 { 2 } else { 1 } };
        let part = |s: u32, n: usize| if s <= cap { mag(s, true, n) } else { zs::bits(cap, 1, cs!("mag")) | (mag(s, false, n) >> cap << cap) };
        let m = part(s as u32, i);
        e.j.sym(&dc, s); e.j.put(m, s as u32);
        let b = &mut e.planes[0].b[i];
        b.c[0] = extend(s as u32, m);
        let (r, sz) = (a >> 4, a & 15);
        if a == 0xf0 {
            // run of 16, then the last coefficient before the end
            e.j.sym(&ac, 0xf0); e.j.sym(&ac, 0);
        } else if a != 0 {
            let m = part(sz as u32, 100 + i);
            e.j.sym(&ac, a); e.j.put(m, sz as u32); e.j.sym(&ac, 0);
            b.c[ZZ[r as usize + 1]] = extend(sz as u32, m); b.dc_only = false;
        } else { e.j.sym(&ac, 0); }
    }
    e.j.flush(); e.j.eoi();
    decode_and_compare(&e.j.v, &e.planes, pl.w, pl.h, 1, true);
}
/// arbitrary entropy coded bits against a bit by bit decoder: -p 16=DC shape 17=AC shape 18=number of arbitrary bits (zeros follow) 19=blocks 20=skipped bits 21=value order seed
/// Code bits fork (every code of the table is a path), magnitude bits stay symbolic.
#[no_mangle]
pub extern "C" fn h_bits() {
    let mut dv: Vec<u8> = vec![0, 1, 2, 3, 5, 8, 11];
    let mut av: Vec<u8> = vec![0, 0x01, 0x02, 0x11, 0x04, 0xf0, 0x32, 0x05, 0x83, 0xe1, 0x0a, 0x61, 0xc2, 0x03];
    if p(21) != 0 { permute(&mut dv, p(21) as u32); permute(&mut av, p(21) as u32 + 3); }
    let (dc, ac) = (shape(p(16), &dv), shape(p(17), &av));
    let pl = Plan::gray(8 * p(19).max(1), 8);
    let mut e = frame(&pl, 0xc0);
    e.j.dht(0, 0, &dc);
    e.j.dht(1, 0, &ac);
    e.j.sos(&[(1, 0)], 0, 63, 0, 0);
    let n = p(18);
    let mut bits: Vec<u32> = vec![];
    fn bit(bits: &mut Vec<u32>, n: usize, fork: bool) -> u32 {
        let mut x = if bits.len() < n { zs::bits(1, 0, cs!("bit")) } else { 0 };
        if fork { x = zs::conc(x as u64) as u32; }
        bits.push(x);
        x
    }
    let sym = |bits: &mut Vec<u32>, h: &Huff| -> Option<u8> {
        let (mut code, mut first, mut k) = (0u32, 0u32, 0usize);
        for l in 0..16 {
            code = code << 1 | bit(bits, n, true);
            let c = h.bits[l] as u32;
            if code >= first && code - first < c { return Some(h.vals[k + (code - first) as usize]); }
            k += c as usize;
            first = (first + c) << 1;
        }
        None
    };
    let (mut bad, mut over) = (false, false);
    let mut pred = 0;
    'blocks: for bi in 0..pl.w / 8 {
        let s = match sym(&mut bits, &dc) { Some(s) => s as u32, None => { bad = true; break } };
        let mut m = 0; for _ in 0..s { m = m << 1 | bit(&mut bits, n, false); }
        pred += extend(s, m);
        let b = &mut e.planes[0].b[bi];
        b.c[0] = pred;
        let mut k = 1;
        while k < 64 {
            let a = match sym(&mut bits, &ac) { Some(s) => s, None => { bad = true; break 'blocks } };
            let (r, s) = (a >> 4, (a & 15) as u32);
            if s == 0 { if r == 15 { k += 16; continue; } break; }
            k += r as usize;
            if k > 63 { over = true; }
            let mut m = 0; for _ in 0..s { m = m << 1 | bit(&mut bits, n, false); }
            if over { break 'blocks; }
            b.c[ZZ[k]] = extend(s, m);
            b.dc_only = false;
            k += 1;
        }
    }
    while bits.len() < n { bit(&mut bits, n, false); }
    while bits.len() % 8 != 0 { bits.push(1); }
    let at = e.j.v.len();
    let cutm = p(24); // the file ends after the arbitrary bits: 1 without, 2 with an EOI marker, 3 with the first byte of a marker, 4 with 0xFF as the last byte
    if cutm != 0 { bits.truncate(n); }
    for c in bits.chunks(8) { let mut x = 0u32; for b in c { x = x << 1 | b; } e.j.v.push(x as u8); }
    for i in at..e.j.v.len() { zs::assume(e.j.v[i] != 0xff); }
    if cutm == 0 || cutm == 2 { e.j.eoi(); }
    if cutm == 3 { e.j.v.push(0xff); }
    if cutm == 4 { let l = e.j.v.len(); e.j.v[l - 1] = 0xff; }
    if cutm != 0 {
        let mut d = Decoder::new_with_options(opts(1, p(6) != 0));
        match d.decode_buffer(&e.j.v) {
            Ok(o) => {
                sized(&d, &o);
                if cutm < 3 && !bad && !over { compare(&o, &expected(&e.planes, pl.w, pl.h, 1), 0); zs::cover(cs!("zeros")); }
            }
            Err(_) => zs::cover(cs!("err")),
        }
        return;
    }
    if bad {
        let mut d = Decoder::new_with_options(opts(1, true));
        zs::check(d.decode_buffer(&e.j.v).is_err(), cs!("bits that are no code of the table are reported as an error"));
        zs::cover(cs!("bad code"));
    } else if over {
        // a run beyond the block is not a valid image
        let mut d = Decoder::new_with_options(opts(1, true));
        if let Ok(o) = d.decode_buffer(&e.j.v) { sized(&d, &o); }
    } else {
        decode_and_compare(&e.j.v, &e.planes, pl.w, pl.h, 1, true);
    }
}
#[allow(unused_imports)]
use jw as _;
