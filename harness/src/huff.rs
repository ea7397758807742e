//! Huffman tables.
use crate::jb::*;
use crate::prim::*;
use crate::ut::*;
use jpeg_decoder::Decoder;

/// T.81 C.2 and F.2.2.3 on a bit string held in an integer.
struct Bits {
    v: u128,
    n: u32,
    pos: u32,
}
impl Bits {
    fn take(&mut self, k: u32) -> u32 {
        let r = self.peek(k);
        self.pos += k;
        r
    }
    fn peek(&self, k: u32) -> u32 {
        if k == 0 {
            return 0;
        }
        ((self.v >> (self.n - self.pos - k)) & ((1u128 << k) - 1)) as u32
    }
}
/// Code assignment of Figure C.2; None if it does not fit.
fn assign(lens: &[u8]) -> Option<Vec<u32>> {
    let mut r = Vec::with_capacity(lens.len());
    let mut code = 0u32;
    let mut l = lens[0];
    for &x in lens {
        while l < x {
            code <<= 1;
            l += 1;
        }
        if code >= 1 << l {
            return None;
        }
        r.push(code);
        code += 1;
    }
    Some(r)
}
/// The symbol at the read position: one path per code and one for "no code".
fn symbol(b: &mut Bits, lens: &[u8], codes: &[u32], vals: &[u8]) -> Option<u8> {
    for i in 0..lens.len() {
        if b.peek(lens[i] as u32) == codes[i] {
            b.pos += lens[i] as u32;
            return Some(vals[i]);
        }
    }
    None
}
fn diff(b: &mut Bits, s: u8) -> Option<i32> {
    if s < 16 {
        let x = b.take(s as u32);
        Some(ext(x, s as u32))
    } else if s == 16 {
        Some(32768)
    } else {
        None
    }
}
const SYM: [u8; 12] = [3, 0, 11, 7, 16, 1, 15, 8, 2, 14, 17, 200];

/// C06: a table of `n` codes (any lengths, first one given) decodes any bit string as defined.
/// params: number of codes, length of the first, rotation of the symbols
pub fn h_huff() {
    let (n, l1, rot) = (pu(0), pu(1), pu(2));
    let mut lens = vec![l1 as u8];
    while lens.len() < n {
        let p = *lens.last().unwrap() as usize;
        lens.push((p + choice(17 - p)) as u8);
    }
    huff(&lens, rot);
}
fn huff(lens: &[u8], rot: usize) {
    let n = lens.len();
    let mut vals = Vec::with_capacity(n);
    for i in 0..n {
        vals.push(SYM[(i + rot) % SYM.len()]);
    }
    let mut j = Jb::new();
    j.sof(3, 16, 2, 1, &[c11(1)]);
    let mut counts = [0u8; 16];
    for l in lens {
        counts[*l as usize - 1] += 1;
    }
    j.dht(0, 0, &counts, &vals);
    j.sos(&[(1, 0, 0)], 1, 0, 0, 0);
    let mut data = [0u8; 8];
    bytes(&mut data);
    for x in &data {
        assume(*x != 0xFF);
    }
    j.raw(&data);
    let v = j.end();
    let out = Decoder::new(&v[..]).decode();
    let codes = match assign(lens) {
        Some(c) => c,
        None => {
            check(out.is_err(), 1);
            cover(2);
            return;
        }
    };
    let mut b = Bits { v: u64::from_be_bytes(data) as u128, n: 64, pos: 0 };
    let mut want = Vec::with_capacity(2);
    let mut p = 1 << 15;
    for _ in 0..2 {
        match symbol(&mut b, lens, &codes, &vals).and_then(|s| diff(&mut b, s)) {
            Some(d) => {
                p = (p + d) & 0xFFFF;
                want.push(p as u16);
            }
            None => {
                check(out.is_err(), 3);
                cover(3);
                return;
            }
        }
    }
    // a code of only 1-bits is not a legal code: whether it is accepted is left open
    match out {
        Err(_) => check(full(lens), 4),
        Ok(o) => {
            let mut e = Vec::with_capacity(4);
            for w in want {
                e.push(w.to_ne_bytes()[0]);
                e.push(w.to_ne_bytes()[1]);
            }
            check_eq(&o, &e, 5);
            cover(1);
        }
    }
}
fn full(lens: &[u8]) -> bool {
    let mut k = 0u32;
    for l in lens {
        k += 1 << (16 - l);
    }
    k >= 1 << 16
}
/// C06: larger tables.  params: kind, rotation
pub fn h_hufft() {
    let lens: Vec<u8> = match pu(0) {
        // one code of every length
        0 => (1..=16).collect(),
        // the standard luminance DC table
        1 => vec![2, 3, 3, 3, 3, 3, 4, 5, 6, 7, 8, 9],
        2 => vec![2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],
        // around the length where look-up ends
        3 => vec![7, 7, 8, 8, 8, 9, 9, 9, 10, 10],
        4 => vec![8, 9, 9, 9, 16, 16, 16],
        5 => vec![9, 9, 9, 9, 9],
        6 => vec![16, 16, 16, 16, 16, 16],
        7 => vec![4, 4, 4, 4, 4, 4, 4, 4, 12, 12, 12, 12],
        8 => vec![3, 3, 3, 3, 3, 3, 3, 4, 15, 15, 16],
        _ => vec![1, 8, 8, 16],
    };
    huff(&lens, pu(1));
}
/// C06: which code-length counts are accepted.  params: two lengths, number of values in the segment
pub fn h_dht() {
    let (la, lb, n) = (pu(0), pu(1), pu(2));
    let (a, b) = (byte(), byte());
    let mut j = Jb::new();
    j.sof(3, 16, 1, 1, &[c11(1)]);
    let mut counts = [0u8; 16];
    counts[la - 1] = a;
    counts[lb - 1] = b;
    let vals = vec![0u8; n];
    j.dht(0, 0, &counts, &vals);
    j.sos(&[(1, 0, 0)], 1, 0, 0, 0);
    j.raw(&[0, 0, 0]);
    let v = j.end();
    let out = Decoder::new(&v[..]).decode();
    let (a, b) = (a as u32, b as u32);
    let k = (a << (16 - la)) + (b << (16 - lb));
    if a + b != n as u32 || k > 1 << 16 {
        check(out.is_err(), 1);
        cover(2);
    } else if k < 1 << 16 {
        check(out.is_ok(), 2);
        cover(1);
    }
}

/// C06: a code behind any number of consumed bits (the decoder refills its buffer at some of them).
/// params: fewest bits before the code, number of cases, which lengths
pub fn h_halign() {
    let before = pu(0) + choice(pu(1));
    let (lens, vals): (&[u8], &[u8]) = match pu(2) {
        0 => (&[1, 2, 3, 16, 16, 16], &[15, 0, 0, 0, 9, 16]),
        1 => (&[1, 2, 3, 9, 10, 15], &[15, 0, 0, 14, 1, 15]),
        _ => (&[1, 2, 3, 4, 8, 13], &[15, 0, 0, 16, 15, 12]),
    };
    let codes = assign(lens).unwrap();
    let mut v: u128 = 0;
    let mut left = before;
    let mut want: Vec<u16> = Vec::new();
    let mut p = 1i32 << 15;
    while left > 0 {
        let (c, n, d) = if left >= 20 || left == 16 {
            (0, 16, -32767)
        } else if left != 3 && left >= 2 {
            (0b10, 2, 0)
        } else {
            (0b110, 3, 0)
        };
        v = (v << n) | (if n == 16 { 0u128 } else { c });
        p = (p + d) & 0xFFFF;
        want.push(p as u16);
        left -= n;
    }
    let mut tail = [0u8; 6];
    bytes(&mut tail);
    for x in tail {
        v = (v << 8) | x as u128;
    }
    let total = before + 48;
    let pad = (8 - total % 8) % 8;
    let w = v << pad;
    let nb = (total + pad) / 8;
    let mut data = Vec::with_capacity(nb);
    for i in 0..nb {
        let x = (w >> (8 * (nb - 1 - i))) as u8;
        assume(x != 0xFF);
        data.push(x);
    }
    let mut b = Bits { v: w, n: (nb * 8) as u32, pos: before as u32 };
    let mut j = Jb::new();
    j.sof(3, 16, want.len() as u16 + 1, 1, &[c11(1)]);
    let mut counts = [0u8; 16];
    for l in lens {
        counts[*l as usize - 1] += 1;
    }
    j.dht(0, 0, &counts, vals);
    j.sos(&[(1, 0, 0)], 1, 0, 0, 0);
    j.raw(&data);
    let f = j.end();
    let out = Decoder::new(&f[..]).decode();
    match symbol(&mut b, lens, &codes, vals).and_then(|s| diff(&mut b, s)) {
        Some(d) => {
            want.push(((p + d) & 0xFFFF) as u16);
            let mut e = Vec::with_capacity(2 * want.len());
            for x in want {
                e.push(x.to_ne_bytes()[0]);
                e.push(x.to_ne_bytes()[1]);
            }
            check_res(out, &e);
            cover(1);
        }
        None => {
            check(out.is_err(), 3);
            cover(3);
        }
    }
}
fn check_res(out: Result<Vec<u8>, jpeg_decoder::Error>, e: &[u8]) {
    match out {
        Ok(o) => check_eq(&o, e, 5),
        Err(_) => check(false, 4),
    }
}
/// C06: class and destination of a table.  params: frame type (0, 1, 2, 3)
pub fn h_dest() {
    let sof = pu(0) as u8;
    let x = byte();
    let mut j = Jb::new();
    let mut y = Jb::new();
    let p = if sof == 3 { 16 } else { 8 };
    let k = [0u8; 16];
    j.dqt_flat(0, 1);
    j.sof(sof, p, 1, 1, &[c11(1)]);
    let mut c = k;
    c[1] = 1;
    let mut seg = vec![x];
    seg.extend_from_slice(&c);
    seg.push(0);
    j.seg(0xC4, &seg);
    y.dht(0, 0, &c, &[0]);
    y.dht(1, 0, &c, &[0]);
    j.raw(&y.out[2..]);
    j.sos(&[(1, 0, 0)], if sof == 3 { 1 } else { 0 }, if sof == 0 || sof == 1 { 63 } else { 0 }, 0, 0);
    j.raw(&[0, 0]);
    let f = j.end();
    let out = Decoder::new(&f[..]).decode();
    let legal = x >> 4 < 2 && x & 15 < if sof == 0 { 2 } else { 4 };
    check(out.is_ok() == legal, 1);
    cover(if legal { 1 } else { 2 });
}
