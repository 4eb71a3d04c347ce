//! Progressive images: scan scripts over symbolic coefficient data.
use crate::gold::Plane;
use crate::img::*;
use crate::jw::{extend, Huff, ZZ};
use crate::zs;

/// one scan: components (0-based), spectral band, successive approximation
#[derive(Clone)]
pub struct Scan { pub c: Vec<usize>, pub ss: u8, pub se: u8, pub ah: u8, pub al: u8 }
fn sc(c: &[usize], ss: u8, se: u8, ah: u8, al: u8) -> Scan { Scan { c: c.to_vec(), ss, se, ah, al } }
pub fn script(n: usize, ncomp: usize) -> Vec<Scan> {
    let all: Vec<usize> = (0..ncomp).collect();
    let mut r = Vec::new();
    let ac = |r: &mut Vec<Scan>, ss, se, ah, al| for i in 0..ncomp { r.push(sc(&[i], ss, se, ah, al)) };
    match n {
        // spectral selection only
        0 => { r.push(sc(&all, 0, 0, 0, 0)); ac(&mut r, 1, 63, 0, 0); }
        // the usual encoder script
        1 => {
            r.push(sc(&all, 0, 0, 0, 1));
            r.push(sc(&[0], 1, 5, 0, 2));
            for i in (1..ncomp).rev() { r.push(sc(&[i], 1, 63, 0, 1)); }
            r.push(sc(&[0], 6, 63, 0, 2));
            r.push(sc(&[0], 1, 63, 2, 1));
            r.push(sc(&all, 0, 0, 1, 0));
            for i in (1..ncomp).rev() { r.push(sc(&[i], 1, 63, 1, 0)); }
            r.push(sc(&[0], 1, 63, 1, 0));
        }
        // DC only
        2 => r.push(sc(&all, 0, 0, 0, 0)),
        // nothing interleaved, bands split, components in reverse order
        3 => {
            for i in (0..ncomp).rev() { r.push(sc(&[i], 0, 0, 0, 0)); }
            ac(&mut r, 9, 63, 0, 0);
            ac(&mut r, 1, 8, 0, 0);
        }
        // deep successive approximation
        4 => {
            r.push(sc(&all, 0, 0, 0, 3));
            for b in (0..3).rev() { r.push(sc(&all, 0, 0, b + 1, b)); }
            ac(&mut r, 1, 63, 0, 3);
            for b in (0..3).rev() { ac(&mut r, 1, 63, b + 1, b); }
        }
        // DC refined after the AC scans, pairs of components interleaved
        5 => {
            if ncomp == 3 { r.push(sc(&[1, 2], 0, 0, 0, 2)); r.push(sc(&[0], 0, 0, 0, 2)); } else { r.push(sc(&[0], 0, 0, 0, 2)); }
            ac(&mut r, 1, 1, 0, 0);
            ac(&mut r, 2, 63, 0, 1);
            if ncomp == 3 { r.push(sc(&[0, 2], 0, 0, 2, 1)); r.push(sc(&[1], 0, 0, 2, 1)); } else { r.push(sc(&[0], 0, 0, 2, 1)); }
            ac(&mut r, 2, 63, 1, 0);
            r.push(sc(&all, 0, 0, 1, 0));
        }
        // one first scan, refined band by band
        7 => {
            r.push(sc(&all, 0, 0, 0, 0));
            ac(&mut r, 1, 63, 0, 1);
            ac(&mut r, 25, 63, 1, 0);
            ac(&mut r, 1, 24, 1, 0);
        }
        // bands refined in other bands than they were coded in
        8 => {
            r.push(sc(&all, 0, 0, 0, 1));
            ac(&mut r, 1, 5, 0, 2);
            ac(&mut r, 6, 63, 0, 2);
            ac(&mut r, 2, 40, 2, 1);
            r.push(sc(&all, 0, 0, 1, 0));
            ac(&mut r, 41, 63, 2, 1);
            ac(&mut r, 1, 1, 2, 1);
            ac(&mut r, 50, 63, 1, 0);
            ac(&mut r, 1, 14, 1, 0);
            ac(&mut r, 15, 49, 1, 0);
        }
        // single coefficients as bands, and their refinement
        9 => {
            r.push(sc(&all, 0, 0, 0, 0));
            for k in [1, 2, 30, 62, 63] { ac(&mut r, k, k, 0, 1); }
            for k in [63, 30, 1] { ac(&mut r, k, k, 1, 0); }
        }
        // many bands
        _ => {
            r.push(sc(&all, 0, 0, 0, 0));
            for b in 0..7 { ac(&mut r, 1 + 9 * b, 9 + 9 * b, 0, 0); }
        }
    }
    r
}
#[derive(Clone)]
pub struct Prog {
    pub script: usize,
    pub dri2: usize,        // restart interval installed before the second scan (usize::MAX: unchanged)
    pub late: usize,        // bit set of what precedes the second and later scans: 1 DHT again, 2 COM, 4 APP0, 8 DQT again, 16 fill bytes
    pub sig_every: usize,   // new coefficients appear in refinement scans in blocks whose number is a multiple of this (0: never)
    pub corr: usize,        // correction bits are symbolic in every corr-th case (0: never)
    pub eobmax: u32,        // longest end-of-band run
    pub eobshift: usize,    // for AC-first scans: blocks n with n % ac_every == eobshift carry coefficients
}
pub struct Progressive { pub data: Vec<u8>, pub planes: Vec<Plane>, pub scans: usize }

struct Eob { run: u32, be: Vec<u32> }
fn emit_eob(j: &mut crate::jw::Jw, ac: &Huff, e: &mut Eob) {
    if e.run == 0 { return; }
    let n = 31 - e.run.leading_zeros();
    j.sym(ac, (n as u8) << 4);
    if n > 0 { j.put(e.run - (1 << n), n); }
    e.run = 0;
    for b in e.be.drain(..) { j.put(b, 1); }
}
pub fn prog_ac() -> Huff {
    // every EOBn, run/size 1..5 for short runs, ZRL and some long runs: 7-bit code
    let mut v: Vec<u8> = vec![];
    for n in 0..15 { v.push(n << 4); }
    v.push(0xf0);
    for r in 0..16u8 { for s in 1..6u8 { if v.len() < 120 { v.push(r << 4 | s); } } }
    Huff::flat(7, &v)
}
pub fn progressive(p: &Plan, g: &Prog) -> Progressive {
    let mut e = frame(p, 0xc2);
    let (dc, _) = (e.dc.clone(), 0);
    let ac = prog_ac();
    e.j.dht(0, 0, &dc);
    e.j.dht(1, 0, &ac);
    let mut dri = p.dri;
    if dri != 0 { e.j.dri(dri as u16); }
    let scans = script(g.script, p.ncomp);
    let mut hist: Vec<Vec<[bool; 64]>> = e.planes.iter().map(|q| vec![[false; 64]; q.b.len()]).collect();
    let mut nsym = 0usize;
    let mut ctr = 0usize;
    for (si, s) in scans.iter().enumerate() {
        if si > 0 {
            if g.late & 2 != 0 { e.j.seg(0xfe, b"comment \xff\xc4\x00\x02"); }
            if g.late & 4 != 0 { e.j.seg(0xe0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0"); e.j.seg(0xee, &[0u8; 3]); }
            if g.late & 8 != 0 { e.j.dqt(3, &[7u8; 64]); }
            if g.late & 1 != 0 { e.j.dht(1, 0, &ac); e.j.dht(0, 1, &dc); }
            if si == 1 && g.dri2 != usize::MAX { dri = g.dri2; e.j.dri(dri as u16); }
        }
        let ids: Vec<(u8, u8)> = s.c.iter().map(|&c| (c as u8 + 1, 0)).collect();
        e.j.sos(&ids, s.ss, s.se, s.ah, s.al);
        // blocks of this scan in coding order, grouped by MCU
        let mut mcus: Vec<Vec<(usize, usize)>> = Vec::new();
        if s.c.len() > 1 {
            for my in 0..e.mcuy { for mx in 0..e.mcux {
                let mut m = Vec::new();
                for &c in &s.c {
                    let q = &e.planes[c];
                    for v in 0..q.v { for h in 0..q.h { m.push((c, (my * q.v + v) * q.bw + mx * q.h + h)); } }
                }
                mcus.push(m);
            } }
        } else {
            let c = s.c[0];
            let q = &e.planes[c];
            let (hm, vm) = (e.planes[0].h, e.planes[0].v);
            let cw = (p.w * q.h + hm - 1) / hm;
            let chh = (p.h * q.v + vm - 1) / vm;
            for y in 0..(chh + 7) / 8 { for x in 0..(cw + 7) / 8 { mcus.push(vec![(c, y * q.bw + x)]); } }
        }
        let mut pred = [0i32; 3];
        let mut eob = Eob { run: 0, be: vec![] };
        let mut nblk = 0usize;
        for (m, blocks) in mcus.iter().enumerate() {
            if dri != 0 && m != 0 && m % dri == 0 {
                emit_eob(&mut e.j, &ac, &mut eob);
                e.j.flush();
                e.j.marker(0xd0 + ((m / dri - 1) & 7) as u8);
                pred = [0; 3];
            }
            for &(c, bi) in blocks {
                let n = nblk; nblk += 1; ctr += 1;
                let b = &mut e.planes[c].b[bi];
                let hs = &mut hist[c][bi];
                let symb = p.sym_every != 0 && n % p.sym_every == 0;
                if s.ss == 0 {
                    if s.ah == 0 {
                        let k = p.dc_s as u32;
                        let mg = mag(k, symb, ctr * 3);
                        e.j.sym(&dc, p.dc_s);
                        e.j.put(mg, k);
                        pred[c] += extend(k, mg);
                        b.c[0] = pred[c] << s.al;
                    } else {
                        nsym += 1;
                        let sym = g.corr != 0 && nsym % g.corr == 0;
                        let bit = zs::conc(mag(1, sym, ctr * 5) as u64) as u32; // the decoder branches on it
                        e.j.put(bit, 1);
                        b.c[0] |= (bit as i32) << s.al;
                    }
                } else if s.ah == 0 {
                    let has = p.ac_every != 0 && n % p.ac_every == g.eobshift % p.ac_every.max(1);
                    let list: Vec<(u8, u8)> = if has { p.ac.iter().cloned().filter(|&(k, _)| k >= s.ss && k <= s.se).collect() } else { vec![] };
                    let mut last = s.ss as i32 - 1;
                    for &(k, sz) in &list {
                        emit_eob(&mut e.j, &ac, &mut eob);
                        let mut run = k as i32 - last - 1;
                        while run > 15 { e.j.sym(&ac, 0xf0); run -= 16; }
                        let mg = mag(sz as u32, symb, ctr * 67 + k as usize);
                        e.j.sym(&ac, (run as u8) << 4 | sz);
                        e.j.put(mg, sz as u32);
                        b.c[ZZ[k as usize]] = extend(sz as u32, mg) << s.al;
                        b.dc_only = false;
                        hs[k as usize] = true;
                        last = k as i32;
                    }
                    if last != s.se as i32 { eob.run += 1; if eob.run >= g.eobmax { emit_eob(&mut e.j, &ac, &mut eob); } }
                } else {
                    // refinement of an AC band
                    let newsig = |k: usize| g.sig_every != 0 && n % g.sig_every == 0 && (k == 2 + s.al as usize || k == 30 || k == 62 - s.al as usize);
                    let mut eobk = 0;
                    for k in s.ss as usize..=s.se as usize { if !hs[k] && newsig(k) { eobk = k; } }
                    let mut r = 0;
                    let mut br: Vec<u32> = vec![];
                    for k in s.ss as usize..=s.se as usize {
                        let nw = !hs[k] && newsig(k);
                        if !hs[k] && !nw { r += 1; continue; }
                        while r > 15 && k <= eobk {
                            emit_eob(&mut e.j, &ac, &mut eob);
                            e.j.sym(&ac, 0xf0);
                            for x in br.drain(..) { e.j.put(x, 1); }
                            r -= 16;
                        }
                        nsym += 1;
                        let sym = g.corr != 0 && nsym % g.corr == 0;
                        let bit = zs::conc(mag(1, sym, ctr * 71 + k) as u64) as u32;
                        let cf = &mut b.c[ZZ[k]];
                        if hs[k] {
                            br.push(bit);
                            let d = (bit as i32) << s.al;
                            *cf = if *cf < 0 { *cf - d } else { *cf + d };
                        } else {
                            emit_eob(&mut e.j, &ac, &mut eob);
                            e.j.sym(&ac, (r as u8) << 4 | 1);
                            e.j.put(bit, 1);
                            for x in br.drain(..) { e.j.put(x, 1); }
                            *cf = (2 * bit as i32 - 1) << s.al;
                            b.dc_only = false;
                            r = 0;
                        }
                    }
                    for k in s.ss as usize..=s.se as usize { if newsig(k) { hs[k] = true; } }
                    if r > 0 || !br.is_empty() {
                        eob.run += 1;
                        eob.be.extend(br);
                        if eob.run >= g.eobmax { emit_eob(&mut e.j, &ac, &mut eob); }
                    }
                }
            }
        }
        emit_eob(&mut e.j, &ac, &mut eob);
        e.j.flush();
        if g.late & 16 != 0 { for _ in 0..3 { e.j.v.push(0xff); } }
    }
    e.j.eoi();
    Progressive { data: e.j.v, planes: e.planes, scans: scans.len() }
}
