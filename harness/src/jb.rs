//! A JPEG byte stream builder.  Bits and bytes may be symbolic; positions are concrete.
pub const SOI: u8 = 0xD8;
pub const EOI: u8 = 0xD9;

pub const ZIGZAG: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57,
    50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

#[derive(Clone, Copy)]
pub struct Comp {
    pub id: u8,
    pub h: u8,
    pub v: u8,
    pub tq: u8,
}

pub struct Jb {
    pub out: Vec<u8>,
    acc: u8,
    nacc: u32,
    /// entropy-coded bytes are known not to be 0xFF (true) or may be (false: stuffing is forked on)
    pub nostuff: bool,
    /// leave out the inputs for which an entropy-coded byte would be 0xFF
    pub noff: bool,
    /// flat blocks are coded in DC scans of a progressive picture
    pub prog: bool,
}

impl Jb {
    pub fn new() -> Jb {
        let mut j = Jb { out: Vec::with_capacity(4096), acc: 0, nacc: 0, nostuff: true, noff: false, prog: false };
        j.marker(SOI);
        j
    }
    pub fn raw(&mut self, b: &[u8]) {
        for x in b {
            self.out.push(*x);
        }
    }
    pub fn marker(&mut self, m: u8) {
        self.out.push(0xFF);
        self.out.push(m);
    }
    pub fn seg(&mut self, m: u8, payload: &[u8]) {
        self.marker(m);
        let l = payload.len() + 2;
        self.out.push((l >> 8) as u8);
        self.out.push(l as u8);
        self.raw(payload);
    }
    /// Quantization table in zigzag order, 16-bit when `prec` is 1.
    pub fn dqt(&mut self, id: u8, prec: u8, q: &[u16; 64]) {
        let mut p = Vec::with_capacity(129);
        p.push(prec << 4 | id);
        for x in q {
            if prec == 1 {
                p.push((*x >> 8) as u8);
            }
            p.push(*x as u8);
        }
        self.seg(0xDB, &p);
    }
    pub fn dqt_flat(&mut self, id: u8, v: u16) {
        self.dqt(id, if v > 255 { 1 } else { 0 }, &[v; 64]);
    }
    pub fn sof(&mut self, n: u8, prec: u8, w: u16, h: u16, comps: &[Comp]) {
        let mut p = Vec::with_capacity(32);
        p.push(prec);
        p.push((h >> 8) as u8);
        p.push(h as u8);
        p.push((w >> 8) as u8);
        p.push(w as u8);
        p.push(comps.len() as u8);
        for c in comps {
            p.push(c.id);
            p.push(c.h << 4 | c.v);
            p.push(c.tq);
        }
        self.seg(0xC0 + n, &p);
    }
    pub fn dht(&mut self, class: u8, id: u8, counts: &[u8; 16], vals: &[u8]) {
        let mut p = Vec::with_capacity(300);
        p.push(class << 4 | id);
        for x in counts {
            p.push(*x);
        }
        for x in vals {
            p.push(*x);
        }
        self.seg(0xC4, &p);
    }
    /// A table with one code of each listed length, in order; returns the codes.
    pub fn dht_lens(&mut self, class: u8, id: u8, lens: &[u8], vals: &[u8]) -> Huff {
        let mut counts = [0u8; 16];
        for l in lens {
            counts[*l as usize - 1] += 1;
        }
        self.dht(class, id, &counts, vals);
        Huff::canon(lens, vals)
    }
    pub fn dri(&mut self, n: u16) {
        self.seg(0xDD, &[(n >> 8) as u8, n as u8]);
    }
    /// (component id, dc table, ac table)
    pub fn sos(&mut self, comps: &[(u8, u8, u8)], ss: u8, se: u8, ah: u8, al: u8) {
        let mut p = Vec::with_capacity(16);
        p.push(comps.len() as u8);
        for c in comps {
            p.push(c.0);
            p.push(c.1 << 4 | c.2);
        }
        p.push(ss);
        p.push(se);
        p.push(ah << 4 | al);
        self.seg(0xDA, &p);
    }
    /// `n` bits of `v`, most significant first.
    pub fn bits(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.acc = (self.acc << 1) | ((v >> i) & 1) as u8;
            self.nacc += 1;
            if self.nacc == 8 {
                self.flush_byte();
            }
        }
    }
    fn flush_byte(&mut self) {
        let b = self.acc;
        self.out.push(b);
        if self.noff {
            crate::prim::assume(b != 0xFF);
        } else if !self.nostuff && b == 0xFF {
            self.out.push(0);
        }
        self.acc = 0;
        self.nacc = 0;
    }
    /// Pad with 1-bits to a byte boundary, as encoders do (with `nostuff` the first one is 0, so that
    /// the byte is not 0xFF).
    pub fn align(&mut self) {
        if (self.nostuff || self.noff) && self.nacc != 0 {
            self.bits(0, 1);
        }
        while self.nacc != 0 {
            self.bits(1, 1);
        }
    }
    pub fn align0(&mut self) {
        while self.nacc != 0 {
            self.bits(0, 1);
        }
    }
    pub fn rst(&mut self, n: u8) {
        self.align();
        self.marker(0xD0 + (n & 7));
    }
    pub fn code(&mut self, h: &Huff, sym: u8) {
        let (c, l) = h.of(sym);
        self.bits(c, l);
    }
    pub fn end(mut self) -> Vec<u8> {
        self.align();
        self.marker(EOI);
        self.out
    }
    pub fn eoi(&mut self) {
        self.align();
        self.marker(EOI);
    }
}

/// Canonical Huffman code assignment (T.81 Annex C), written independently of the decoder.
#[derive(Clone)]
pub struct Huff {
    pub codes: Vec<(u8, u32, u32)>,
}
impl Huff {
    pub fn canon(lens: &[u8], vals: &[u8]) -> Huff {
        let mut codes = Vec::with_capacity(lens.len());
        let mut code = 0u32;
        let mut k = 0;
        let mut l = 1u32;
        while l <= 16 {
            let mut i = 0;
            while i < lens.len() {
                if lens[i] as u32 == l {
                    codes.push((vals[k], code, l));
                    k += 1;
                    code += 1;
                }
                i += 1;
            }
            code <<= 1;
            l += 1;
        }
        Huff { codes }
    }
    pub fn of(&self, sym: u8) -> (u32, u32) {
        for c in &self.codes {
            if c.0 == sym {
                return (c.1, c.2);
            }
        }
        panic!("harness: no code");
    }
}
