//! Reference reconstruction: coefficients -> pixels, written from the JPEG standard and the decoder's documented
//! arithmetic (fixed-point inverse DCT, triangle chroma filters, 5/6-bit fixed-point BT.601 conversion).
#[derive(Clone)]
pub struct Block { pub c: [i32; 64], pub dc_only: bool }
pub struct Plane { pub h: usize, pub v: usize, pub bw: usize, pub bh: usize, pub b: Vec<Block>, pub q: [i32; 64] }
pub fn clamp255(x: i32) -> i32 { if x < 0 { 0 } else if x > 255 { 255 } else { x } }
fn idct1(s: [i32; 8], bias: i32, sh: u32) -> [i32; 8] {
    let p1 = (s[2] + s[6]) * 2217;
    let (t2, t3) = (p1 - s[6] * 7567, p1 + s[2] * 3135);
    let (t0, t1) = ((s[0] + s[4]) * 4096, (s[0] - s[4]) * 4096);
    let e = [t0 + t3, t1 + t2, t1 - t2, t0 - t3];
    let (p3, p4, p1, p2) = (s[7] + s[3], s[5] + s[1], s[7] + s[1], s[5] + s[3]);
    let p5 = (p3 + p4) * 4816;
    let (q1, q2, q3, q4) = (p5 - p1 * 3685, p5 - p2 * 10497, -p3 * 8034, -p4 * 1597);
    let o = [s[1] * 6149 + q1 + q4, s[3] * 12586 + q2 + q3, s[5] * 8410 + q2 + q4, s[7] * 1223 + q1 + q3];
    let mut r = [0; 8];
    for i in 0..4 { r[i] = (e[i] + bias + o[i]) >> sh; r[7 - i] = (e[i] + bias - o[i]) >> sh; }
    r
}
pub fn idct(b: &Block, q: &[i32; 64]) -> [i32; 64] {
    let mut out = [0i32; 64];
    if b.dc_only {
        let v = clamp255(((b.c[0] * q[0]) >> 3) + 128);
        return [v; 64];
    }
    let mut t = [0i32; 64];
    for x in 0..8 {
        let mut s = [0; 8];
        for y in 0..8 { s[y] = b.c[y * 8 + x] * q[y * 8 + x]; }
        let r = idct1(s, 512, 10);
        for y in 0..8 { t[y * 8 + x] = r[y]; }
    }
    for y in 0..8 {
        let mut s = [0; 8];
        for x in 0..8 { s[x] = t[y * 8 + x]; }
        let r = idct1(s, 512 + 65536 + (128 << 17), 17);
        for x in 0..8 { out[y * 8 + x] = clamp255(r[x]); }
    }
    out
}
impl Plane {
    /// padded sample plane of bw*8 x bh*8
    pub fn samples(&self) -> Vec<i32> {
        let w = self.bw * 8;
        let mut o = vec![0; w * self.bh * 8];
        for by in 0..self.bh { for bx in 0..self.bw {
            let r = idct(&self.b[by * self.bw + bx], &self.q);
            for y in 0..8 { for x in 0..8 { o[(by * 8 + y) * w + bx * 8 + x] = r[y * 8 + x]; } }
        } }
        o
    }
}
fn tri(a: i32, near: i32) -> i32 { (3 * a + near + 2) >> 2 }
fn up_h(s: &[i32], w: usize) -> Vec<i32> {
    let mut o = vec![0; s.len() * 2];
    for (y, row) in s.chunks_exact(w).enumerate() {
        let d = &mut o[y * w * 2..(y + 1) * w * 2];
        for i in 0..w {
            d[2 * i] = if i == 0 { row[0] } else { tri(row[i], row[i - 1]) };
            d[2 * i + 1] = if i + 1 == w { row[i] } else { tri(row[i], row[i + 1]) };
        }
    }
    o
}
fn up_v(s: &[i32], w: usize) -> Vec<i32> {
    let mut o = vec![0; s.len() * 2];
    let h = s.len() / w;
    for y in 0..h { for x in 0..w {
        let k = y % 8;
        let a = s[y * w + x];
        let up = if k == 0 { a } else { s[(y - 1) * w + x] };
        let dn = if k == 7 { a } else { s[(y + 1) * w + x] };
        o[2 * y * w + x] = tri(a, up);
        o[(2 * y + 1) * w + x] = tri(a, dn);
    } }
    o
}
/// planes at luma resolution, each with the padded luma width; returns (planes, stride)
pub fn upsampled(p: &[Plane], n: usize) -> (Vec<Vec<i32>>, usize) {
    let stride = p[0].bw * 8;
    let mut r = Vec::new();
    for (i, c) in p.iter().take(n).enumerate() {
        let mut s = c.samples();
        if i > 0 {
            let mut w = c.bw * 8;
            if p[0].v / c.v == 2 { s = up_v(&s, w); }
            if p[0].h / c.h == 2 { s = up_h(&s, w); w *= 2; }
            let _ = w;
        }
        r.push(s);
    }
    (r, stride)
}
pub fn rgb(y: i32, cb: i32, cr: i32) -> (i32, i32, i32) {
    let (b, r) = (cb - 128, cr - 128);
    (clamp255(y + ((45 * r) >> 5)), clamp255(y - ((11 * b + 23 * r) >> 5)), clamp255(y + ((113 * b) >> 6)))
}
