//! Stream fragments shared by the entries.
use crate::jb::*;
use crate::prim::*;
use jpeg_decoder::{ColorTransform, Decoder, Error};

pub fn dec(v: &[u8]) -> Result<Vec<u8>, Error> {
    Decoder::new(v).decode()
}
/// Decodes, failing check `id` on an error.
pub fn must(v: &[u8], id: u32) -> Vec<u8> {
    match dec(v) {
        Ok(p) => p,
        Err(e) => {
            core::mem::forget(e);
            check(false, id);
            Vec::new()
        }
    }
}
pub fn must_scaled(v: &[u8], rw: u16, rh: u16, ow: usize, oh: usize, id: u32) -> Vec<u8> {
    let mut d = Decoder::new(v);
    match d.scale(rw, rh) {
        Ok((w, h)) => check(w as usize == ow && h as usize == oh, id),
        Err(_) => check(false, id),
    }
    match d.decode() {
        Ok(p) => p,
        Err(_) => {
            check(false, id);
            Vec::new()
        }
    }
}
pub fn must_with(v: &[u8], t: ColorTransform, id: u32) -> Vec<u8> {
    let mut d = Decoder::new(v);
    d.set_color_transform(t);
    match d.decode() {
        Ok(p) => p,
        Err(_) => {
            check(false, id);
            Vec::new()
        }
    }
}
pub fn clamp8(x: i32) -> u8 {
    x.clamp(0, 255) as u8
}
pub fn c11(id: u8) -> Comp {
    Comp { id, h: 1, v: 1, tq: 0 }
}
pub fn cdiv(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}
/// Tables 0/0 in which a DC difference of category 6 costs one bit, and a block ends after one more:
/// a flat block is exactly one byte and never 0xFF.
pub fn flat_tables(j: &mut Jb) -> (Huff, Huff) {
    let d = j.dht_lens(0, 0, &[1], &[6]);
    let a = j.dht_lens(1, 0, &[1], &[0]);
    (d, a)
}
/// A symbolic DC difference of category 6 (magnitude 32..=63): its bits and its value.
pub fn diff6() -> (u32, i32) {
    let b = (byte() & 63) as u32;
    (b, ext(b, 6))
}
/// EXTEND of T.81 F.2.2.1
pub fn ext(b: u32, n: u32) -> i32 {
    if n == 0 {
        0
    } else if b >> (n - 1) != 0 {
        b as i32
    } else {
        b as i32 - (1 << n) + 1
    }
}
/// One flat block.
pub fn flat_block(j: &mut Jb, t: &(Huff, Huff), bits6: u32) {
    j.code(&t.0, 6);
    j.bits(bits6, 6);
    if !j.prog {
        j.code(&t.1, 0);
    }
}
/// A plane of flat-block samples, `bw` x `bh` blocks.
pub struct Plane {
    pub bw: usize,
    pub bh: usize,
    pub s: Vec<u8>,
    /// coding order: block index, difference bits, whether the prediction was reset before it
    pub ord: Vec<(usize, u32, bool)>,
}
impl Plane {
    pub fn new(bw: usize, bh: usize) -> Plane {
        Plane { bw, bh, s: vec![128; bw * bh], ord: Vec::with_capacity(bw * bh) }
    }
    pub fn at(&self, x: usize, y: usize) -> u8 {
        self.s[y * self.bw + x]
    }
    /// Replaces the samples by what the decoder makes of the same blocks in a one-component image
    /// (after checking that this is the same value), so that later formulas have terms in common.
    pub fn resolve(&mut self, sc: usize) {
        let mut k = 0;
        while k < self.ord.len() {
            let mut e = k + 1;
            while e < self.ord.len() && !self.ord[e].2 {
                e += 1;
            }
            let n = e - k;
            let (bw, bh) = (n.min(16), cdiv(n, 16));
            let mut j = Jb::new();
            j.dqt_flat(0, 8);
            j.sof(0, 8, 8 * bw as u16, 8 * bh as u16, &[c11(1)]);
            let t = flat_tables(&mut j);
            j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
            for i in 0..bw * bh {
                flat_block(&mut j, &t, if i < n { self.ord[k + i].1 } else { 0 });
            }
            let v = j.end();
            let o = if sc == 8 { must(&v, 97) } else { must_scaled(&v, (bw * sc) as u16, (bh * sc) as u16, bw * sc, bh * sc, 97) };
            check(o.len() == bw * bh * sc * sc, 98);
            for i in 0..n {
                let x = o[(i / 16) * sc * bw * sc + (i % 16) * sc];
                let b = self.ord[k + i].0;
                check_eq(&[x], &[self.s[b]], 99);
                self.s[b] = x;
            }
            k = e;
        }
    }
}
/// The entropy-coded data of one interleaved scan of flat blocks with symbolic differences
/// (quantizer 8, so a block's samples are its clamped prediction + 128).
/// `f` lists (h, v) per component; returns the block samples per component.
pub fn flat_mcus(j: &mut Jb, t: &(Huff, Huff), f: &[(usize, usize)], mx: usize, my: usize, restart: usize) -> Vec<Plane> {
    let mut planes = Vec::with_capacity(4);
    for c in f {
        planes.push(Plane::new(c.0 * mx, c.1 * my));
    }
    let mut pred = [0i16; 4];
    let mut n = 0usize;
    let mut fresh = [true; 4];
    for y in 0..my {
        for x in 0..mx {
            if restart > 0 && n > 0 && n % restart == 0 {
                j.rst(((n / restart - 1) % 8) as u8);
                pred = [0; 4];
                fresh = [true; 4];
            }
            n += 1;
            for i in 0..f.len() {
                for v in 0..f[i].1 {
                    for h in 0..f[i].0 {
                        let (b, d) = diff6();
                        flat_block(j, t, b);
                        pred[i] = pred[i].wrapping_add(d as i16);
                        let (px, py) = (x * f[i].0 + h, y * f[i].1 + v);
                        let bw = planes[i].bw;
                        planes[i].ord.push((py * bw + px, b, fresh[i]));
                        fresh[i] = false;
                        planes[i].s[py * bw + px] = clamp8(pred[i] as i32 + 128);
                    }
                }
            }
        }
    }
    planes
}
/// A non-interleaved scan of `bw` x `bh` flat blocks into an existing plane.
pub fn flat_scan(j: &mut Jb, t: &(Huff, Huff), p: &mut Plane, bw: usize, bh: usize, restart: usize) {
    let mut pred = 0i16;
    let mut n = 0usize;
    let mut fresh = true;
    for y in 0..bh {
        for x in 0..bw {
            if restart > 0 && n > 0 && n % restart == 0 {
                j.rst(((n / restart - 1) % 8) as u8);
                pred = 0;
                fresh = true;
            }
            n += 1;
            let (b, d) = diff6();
            flat_block(j, t, b);
            pred = pred.wrapping_add(d as i16);
            p.ord.push((y * p.bw + x, b, fresh));
            fresh = false;
            p.s[y * p.bw + x] = clamp8(pred as i32 + 128);
        }
    }
}
/// Ids that select the RGB transform (no conversion).
pub const RGB: [u8; 3] = [82, 71, 66];
pub fn adobe(j: &mut Jb, t: u8) {
    j.seg(0xEE, &[b'A', b'd', b'o', b'b', b'e', 0, 100, 0, 0, 0, 0, t]);
}
pub fn jfif(j: &mut Jb) {
    j.seg(0xE0, b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0");
}
