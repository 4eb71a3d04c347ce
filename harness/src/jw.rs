//! JPEG writer. The structure of the file (segments, codes, lengths) is concrete unless a caller
//! passes symbolic values; magnitude bits are usually symbolic.
use crate::zs;
pub const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21,
    28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54,
    47, 55, 62, 63,
];
#[derive(Clone)]
pub struct Huff { pub bits: [u8; 16], pub vals: Vec<u8>, pub code: Vec<u32>, pub len: Vec<u32> }
impl Huff {
    pub fn new(bits: [u8; 16], vals: &[u8]) -> Huff {
        let mut code = vec![0u32; 256];
        let mut len = vec![0u32; 256];
        let (mut c, mut k) = (0u32, 0usize);
        for l in 0..16 {
            for _ in 0..bits[l] {
                code[vals[k] as usize] = c;
                len[vals[k] as usize] = l as u32 + 1;
                c += 1;
                k += 1;
            }
            c <<= 1;
        }
        Huff { bits, vals: vals.to_vec(), code, len }
    }
    /// equal-length table: every symbol gets a code of `l` bits
    pub fn flat(l: usize, vals: &[u8]) -> Huff {
        let mut b = [0u8; 16];
        b[l - 1] = vals.len() as u8;
        Huff::new(b, vals)
    }
}
pub fn dc_std() -> Huff { Huff::new([0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]) }
pub fn ac_std() -> Huff {
    Huff::new(
        [0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d],
        &[
            0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07, 0x22, 0x71,
            0x14, 0x32, 0x81, 0x91, 0xA1, 0x08, 0x23, 0x42, 0xB1, 0xC1, 0x15, 0x52, 0xD1, 0xF0, 0x24, 0x33, 0x62, 0x72,
            0x82, 0x09, 0x0A, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A, 0x34, 0x35, 0x36, 0x37,
            0x38, 0x39, 0x3A, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4A, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59,
            0x5A, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6A, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0x83,
            0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0xA2, 0xA3,
            0xA4, 0xA5, 0xA6, 0xA7, 0xA8, 0xA9, 0xAA, 0xB2, 0xB3, 0xB4, 0xB5, 0xB6, 0xB7, 0xB8, 0xB9, 0xBA, 0xC2, 0xC3,
            0xC4, 0xC5, 0xC6, 0xC7, 0xC8, 0xC9, 0xCA, 0xD2, 0xD3, 0xD4, 0xD5, 0xD6, 0xD7, 0xD8, 0xD9, 0xDA, 0xE1, 0xE2,
            0xE3, 0xE4, 0xE5, 0xE6, 0xE7, 0xE8, 0xE9, 0xEA, 0xF1, 0xF2, 0xF3, 0xF4, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFA,
        ],
    )
}
pub struct Jw { pub v: Vec<u8>, acc: u64, n: u32, pub stuff: bool }
impl Jw {
    pub fn new() -> Jw { let mut v = Vec::with_capacity(4096); v.push(0xff); v.push(0xd8); Jw { v, acc: 0, n: 0, stuff: false } }
    pub fn marker(&mut self, m: u8) { self.v.push(0xff); self.v.push(m); }
    pub fn u16(&mut self, x: u16) { self.v.push((x >> 8) as u8); self.v.push(x as u8); }
    pub fn seg(&mut self, m: u8, body: &[u8]) { self.marker(m); self.u16(body.len() as u16 + 2); self.v.extend_from_slice(body); }
    /// quantisation table given in natural order
    pub fn dqt(&mut self, id: u8, q: &[u8; 64]) {
        self.marker(0xdb);
        self.u16(67);
        self.v.push(id);
        for k in 0..64 { self.v.push(q[ZZ[k]]); }
    }
    /// comps: (id, h, v, tq)
    pub fn sof(&mut self, m: u8, w: u16, h: u16, comps: &[(u8, u8, u8, u8)]) {
        self.marker(m);
        self.u16(8 + 3 * comps.len() as u16);
        self.v.push(8);
        self.u16(h);
        self.u16(w);
        self.v.push(comps.len() as u8);
        for c in comps { self.v.push(c.0); self.v.push(c.1 << 4 | c.2); self.v.push(c.3); }
    }
    pub fn dht(&mut self, class: u8, id: u8, h: &Huff) {
        self.marker(0xc4);
        self.u16(19 + h.vals.len() as u16);
        self.v.push(class << 4 | id);
        self.v.extend_from_slice(&h.bits);
        self.v.extend_from_slice(&h.vals);
    }
    pub fn dri(&mut self, n: u16) { self.marker(0xdd); self.u16(4); self.u16(n); }
    pub fn sos(&mut self, comps: &[(u8, u8)], ss: u8, se: u8, ah: u8, al: u8) {
        self.marker(0xda);
        self.u16(6 + 2 * comps.len() as u16);
        self.v.push(comps.len() as u8);
        for c in comps { self.v.push(c.0); self.v.push(c.1); }
        self.v.push(ss);
        self.v.push(se);
        self.v.push(ah << 4 | al);
    }
    pub fn eoi(&mut self) { self.marker(0xd9); }
    fn byte(&mut self, b: u8) {
        if zs::issym(b as u64) {
            if self.stuff && zs::conc((b == 0xff) as u64) == 1 {
                self.v.push(0xff);
                self.v.push(0);
                return;
            }
            // bound: without `stuff`, symbolic bytes never need stuffing
            zs::assume(b != 0xff);
            self.v.push(b);
        } else {
            self.v.push(b);
            if b == 0xff { self.v.push(0); }
        }
    }
    pub fn put(&mut self, v: u32, n: u32) {
        self.acc = self.acc << n | v as u64;
        self.n += n;
        while self.n >= 8 {
            let b = (self.acc >> (self.n - 8)) as u8;
            self.n -= 8;
            self.acc &= (1u64 << self.n) - 1;
            self.byte(b);
        }
    }
    pub fn sym(&mut self, h: &Huff, s: u8) { let (c, l) = (h.code[s as usize], h.len[s as usize]); assert!(l > 0, "harness: symbol without a code"); self.put(c, l); }
    /// bytes that are needed to hold everything written so far
    pub fn used(&self) -> usize { self.v.len() + (self.n > 0) as usize }
    pub fn flush(&mut self) { if self.n > 0 { let k = 8 - self.n; self.put((1 << k) - 1, k); } }
}
/// value of category s with magnitude bits m (m < 2^(s-1) stands for m - (2^s - 1)), branch free
pub fn extend(s: u32, m: u32) -> i32 { if s == 0 { return 0; } let neg = ((m >> (s - 1)) & 1) as i32 - 1; m as i32 + (neg & (1 - (1i32 << s))) }
